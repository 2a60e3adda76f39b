// Splines, minimum-norm element of a hull, random generator.
#include "mani.h"
#include "Others/Spline.h"
#include "Others/MinPNormConHull.h"
#include "Others/randgen.h"
#include "Problems/SphereConvexHull.h"
#include "Solvers/RGS.h"
#include <memory>
using namespace ROPTLIB;
using namespace vh;

// ================================================================== U01: cubic splines
// natural piece evaluation, independent of the library's evaluators
struct Pc { const double *c; int nn; double v(int i, double s) const { return ((c[i] * s + c[nn + i]) * s + c[2 * nn + i]) * s + c[3 * nn + i]; } double d(int i, double s) const { return (3 * c[i] * s + 2 * c[nn + i]) * s + c[2 * nn + i]; } double dd(int i, double s) const { return 6 * c[i] * s + 2 * c[nn + i]; } };
VH_SUITE(u01) {
    int kind = r.i(0, 3); bool per = kind < 2, uni = kind % 2 == 0; int n = r.b(0.15) ? r.i(2, 4) : r.i(2, 40); int nn = n - 1;
    static const char *kn[] = {"uniform periodic", "periodic", "uniform slopes", "slopes"};
    double h = std::pow(10.0, r.u() * 5 - 3), x0 = (!uni && r.b(0.6)) ? r.n() * (r.b() ? 100 : 1) * h : 0; std::vector<double> X(n), Y(n), C(4 * nn, 7.5e77); int shape = r.i(0, 3);
    double spread = r.pickd({0, 1, 3}); X[0] = x0; for (int i = 1; i < n; i++) X[i] = X[i - 1] + (uni ? h : h * std::exp(spread * (r.u() - 0.5))); if (uni) for (int i = 0; i < n; i++) X[i] = i * h;
    double amp = std::pow(10.0, r.u() * 6 - 3); for (int i = 0; i < n; i++) Y[i] = amp * (shape == 0 ? r.n() : shape == 1 ? std::sin(6.283185307179586 * i / nn) : shape == 2 ? 1.0 : (r.b(0.7) ? 0 : r.n())); if (per) Y[nn] = Y[0];
    config("%s", kn[kind]); detail("n=%d x0=%.3g h=%.3g", n, x0, h);
    std::vector<double> X0 = X, Y0 = Y;
    int ok = kind == 0 ? Spline::SplineUniformPeriodic(Y.data(), n, h, C.data()) : kind == 1 ? Spline::SplinePeriodic(X.data(), Y.data(), n, C.data()) : kind == 2 ? Spline::SplineUniformSlopes(Y.data(), n, h, C.data()) : Spline::SplineSlopes(X.data(), Y.data(), n, C.data());
    vh::trace("coefs", C.data(), C.size());
    if (!expect(ok == 1, "U01.solved", "the spline was not computed")) return; expect(X == X0 && Y == Y0, "U01.inputs", "samples were changed");
    Pc p{C.data(), nn}; double hm = HUGE_VAL, hM = 0, ys = 0; for (int i = 0; i < nn; i++) { hm = std::min(hm, X[i + 1] - X[i]); hM = std::max(hM, X[i + 1] - X[i]); } for (double y : Y) ys = std::max(ys, std::fabs(y)); ys += 1e-300;
    double rel = 1e-12 * (1 + std::fabs(X[0]) / hm + std::fabs(X[nn]) / hm) * (hM / hm), s1 = ys / hm, s2 = ys / hm / hm; auto len = [&](int i) { return X[i + 1] - X[i]; };
    for (int i = 0; i < nn; i++) { small("U01.interpolates", std::fabs(p.v(i, 0) - Y[i]) / ys, rel, "left value"); small("U01.interpolates", std::fabs(p.v(i, len(i)) - Y[i + 1]) / ys, 10 * rel, "right value"); obs("knots"); }
    for (int i = 0; i + 1 < nn; i++) { small("U01.slope", std::fabs(p.d(i, len(i)) - p.d(i + 1, 0)) / s1, 10 * rel, "first derivative jumps at a knot"); small("U01.curvature", std::fabs(p.dd(i, len(i)) - p.dd(i + 1, 0)) / s2, 10 * rel, "second derivative jumps at a knot"); }
    if (per) { obs("periodic ends"); small("U01.periodic", std::fabs(p.d(nn - 1, len(nn - 1)) - p.d(0, 0)) / s1, 10 * rel, "slopes at the ends differ"); small("U01.periodic", std::fabs(p.dd(nn - 1, len(nn - 1)) - p.dd(0, 0)) / s2, 10 * rel, "curvatures at the ends differ"); }
    else { obs("prescribed end slopes"); small("U01.endslope", std::fabs(p.d(0, 0) - (Y[1] - Y[0]) / len(0)) / s1, 10 * rel, "first slope"); small("U01.endslope", std::fabs(p.d(nn - 1, len(nn - 1)) - (Y[nn] - Y[nn - 1]) / len(nn - 1)) / s1, 10 * rel, "last slope"); }
    std::vector<double> D1(3 * nn, 7.5e77), D2(2 * nn, 7.5e77); Spline::FirstDeri(C.data(), n, D1.data()); Spline::SecondDeri(C.data(), n, D2.data());
    // evaluation anywhere between the knots and exactly at them
    for (int t = 0; t < 12; t++) {
        int i = r.i(0, nn - 1); double u = t < 3 ? X[i] : t < 6 ? X[i + 1] : X[i] + r.u() * len(i), s = u - X[i]; double a = std::max(std::fabs(p.c[i]) * hM * hM * hM, ys), tol = 1e-9 * (1 + a / ys) + 100 * rel;
        double v = uni ? Spline::ValSplineUniform(C.data(), n, h, u) : Spline::ValSpline(C.data(), X.data(), n, u), w = uni ? Spline::ValFirstDeriUniform(D1.data(), n, h, u) : Spline::ValFirstDeri(D1.data(), X.data(), n, u), z = uni ? Spline::ValSecondDeriUniform(D2.data(), n, h, u) : Spline::ValSecondDeri(D2.data(), X.data(), n, u);
        small("U01.eval", std::fabs(v - p.v(i, s)) / ys, tol, "value"); small("U01.eval", std::fabs(w - p.d(i, s)) / s1, tol, "first derivative"); small("U01.eval", std::fabs(z - p.dd(i, s)) / s2, tol, "second derivative"); obs("evaluations");
        vh::trace("val", v); vh::trace("d1", w); vh::trace("d2", z);
    }
    sig(std::string(kn[kind]) + " n" + std::to_string(n) + (x0 ? " shifted" : "") + (spread ? " uneven" : "")); if (n == 2) obs("single interval"); if (n == 3) obs("two intervals");
}

// ================================================================== U02: minimum-norm element
struct PSolver : public RGS {   // carries an operator in the place where solvers keep theirs
    std::function<Vector(const Vector &)> op; Vector &P(const Vector &v, Vector *res) { *res = op(v); return *res; }
    PSolver(const Problem *p, const Variable *x) : RGS(p, x) {}
};
struct NullProb : public Problem { realdp f(const Variable &x) const { return 0; } };
VH_SUITE(u02) {
    FP F = mkfix(r, 0); double c; Variable x = mkpoint(r, *F, c); if (c > 1e4) { obs("ill-conditioned point skipped"); return; }
    int k = r.b(0.2) ? 1 : r.i(2, 12); double sc = std::pow(10.0, r.u() * 4 - 2); int shape = r.i(0, 5); const char *sn[] = {"generic", "duplicates", "contains the origin", "one-sided", "nearly equal", "low-dimensional"};
    config("%s %s", F->name.c_str(), sn[shape]); detail("%s k=%d scale %.2g", F->det.c_str(), k, sc);
    auto lc = [&](double a, const Vector &v, double b, const Vector &w) { Vector t(v); F->M->VectorLinearCombination(x, a, v, b, w, &t); return t; }; auto met = [&](const Vector &a, const Vector &b) { return F->M->Metric(x, a, b); };
    std::vector<Vector> W; Vector base = F->W(x, F->tvs(r, x, sc)), b2 = F->W(x, F->tvs(r, x, sc));
    for (int i = 0; i < k; i++) {
        Vector t = F->W(x, F->tvs(r, x, sc * (0.3 + r.u())));
        if (shape == 1 && i && r.b(0.6)) t = W[r.i(0, i - 1)]; if (shape == 3) t = lc(0.4, t, 1, base); if (shape == 4) t = lc(1e-3, t, 1, base); if (shape == 5) t = lc(r.n(), base, r.n(), b2);
        W.push_back(t);
    }
    if (shape == 2 && k > 1) W[r.i(0, k - 1)] = lc(-r.u() - 0.2, W[0], 0, W[0]); if (shape == 2 && k > 1 && r.b(0.3)) W[0] = lc(0, W[0], 0, W[0]);
    // operator: identity or a positive definite one  v -> a v + sum b_j <v,q_j> q_j
    bool useP = r.b(0.4); double al = std::pow(10.0, r.u() * 2 - 1); std::vector<Vector> q; std::vector<double> be; for (int j = 0; j < 2; j++) { q.push_back(F->W(x, F->tvs(r, x, 1))); be.push_back(r.u() * 3 * al); }
    auto P = [&](const Vector &v) -> Vector { if (!useP) return v; Vector t = lc(al, v, 0, v); for (int j = 0; j < 2; j++) t = lc(1, t, be[j] * met(q[j], v), q[j]); return t; };
    NullProb np; np.SetDomain(F->M); PSolver ps(&np, &x); ps.op = P;
    std::vector<Vector> W0; for (auto &w : W) W0.push_back(fromflat(w, raw(w))); genrandseed(r.i(1, 1 << 30));
    Vector out(W[0]); double f = useP ? MinPNormConHull(F->M, x, W.data(), k, &ps, static_cast<Vector &(SolversNSMSub::*)(const Vector &, Vector *)>(&PSolver::P), out) : r.b() ? MinPNormConHull(F->M, x, W.data(), k, out) : MinPNormConHull(F->M, x, W.data(), k, nullptr, nullptr, out);
    vh::trace("minnorm", out); vh::trace("value", f);
    for (int i = 0; i < k; i++) expect(raw(W[i]) == raw(W0[i]), "U02.inputs", "vector %d changed", i);
    if (!expect(finite(raw(out)) && std::isfinite(f) && out.Getlength() == W[0].Getlength(), "U02.finite", "not a vector: value %g", f)) return;
    Vector Po = P(out); double val = met(out, Po), mx = 0, mn = HUGE_VAL, mg = 0; for (int i = 0; i < k; i++) { mx = std::max(mx, met(W[i], P(W[i]))); mn = std::min(mn, met(W[i], Po)); mg = std::max(mg, met(W[i], W[i])); }
    small("U02.value", std::fabs(f - val) / (mx + 1e-300), 1e-9, "reported value is not the squared norm of the returned element");
    std::vector<V> G(k, V(k)); std::vector<Vector> D; for (auto &w : W) D.push_back(lc(1, w, -1, out)); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) G[i][j] = met(D[i], D[j]); double gp, o = 0; V w = minnorm(G, gp); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) o += w[i] * w[j] * G[i][j];
    small("U02.hull", std::sqrt(std::max(0.0, o) / (mg + 1e-300)), 1e-6, "not a convex combination of the given vectors"); obs("hull memberships");
    bool good = val - mn <= 1e-4 * mx + 1e-9; obs(good ? "elements certified" : "elements not certified"); if (k > 1) { if (useP) obs("with operator"); obs(sn[shape]); } if (k == 1) { obs("single vector"); small("U02.single", std::sqrt(o / (mg + 1e-300)), 1e-8, "the hull of one vector"); }
    if (!good) sample("gap %g of %g k=%d", val - mn, mx, k);
    // independent optimum
    std::vector<V> GP(k, V(k)); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) GP[i][j] = met(W[i], P(W[j])); double g2, o2 = 0; V w2 = minnorm(GP, g2); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) o2 += w2[i] * w2[j] * GP[i][j];
    expect(val >= o2 - 1e-9 * mx, "U02.below", "squared norm %g below the smallest possible %g", val, o2); if (good) small("U02.optimal", (val - o2) / (mx + 1e-300), 1e-4 + 1e-9 / (mx + 1e-300), "distance to the optimal value");
    // the problem the hull is handed to: value, gradient and Hessian on the sphere of square roots of the weights
    { SphereConvexHull hp(F->M, W.data(), k, useP ? &ps : nullptr, useP ? static_cast<Vector &(SolversNSMSub::*)(const Vector &, Vector *)>(&PSolver::P) : nullptr, &x); V sv(k), ev(k); double ns = 0; for (int i = 0; i < k; i++) { sv[i] = r.n(); ns += sv[i] * sv[i]; ev[i] = r.n(); } for (auto &t : sv) t /= std::sqrt(ns);
      Element s(k), e(k), g(k), h(k); s = fromflat(s, sv); e = fromflat(e, ev); hp.SetUseGrad(true); hp.SetUseHess(true); double fs = hp.f(s); hp.EucGrad(s, &g); hp.EucHessianEta(s, e, &h); V gv = raw(g), hv = raw(h); double f1 = 0, dg = 0, dh = 0, en = 0;
      for (int i = 0; i < k; i++) { double a1 = 0, b1 = 0; for (int j = 0; j < k; j++) { a1 += sv[j] * sv[j] * GP[i][j]; b1 += sv[j] * ev[j] * GP[i][j]; } f1 += sv[i] * sv[i] * a1; dg = std::max(dg, std::fabs(gv[i] - 4 * sv[i] * a1)); dh = std::max(dh, std::fabs(hv[i] - 4 * ev[i] * a1 - 8 * sv[i] * b1)); en = std::max(en, std::fabs(ev[i])); }
      expect(raw(s) == sv && raw(e) == ev, "U02.inputs", "weights changed"); small("U02.problem", std::fabs(fs - f1) / (mx + 1e-300), 1e-9, "cost of the hull problem"); small("U02.problem", dg / (mx + 1e-300), 1e-8, "gradient of the hull problem"); small("U02.problem", dh / (mx * (1 + en) + 1e-300), 1e-8, "Hessian of the hull problem"); obs("hull problems"); }
    sig(F->name + " " + sn[shape] + (useP ? " P" : "") + " k" + std::to_string(k));
}

// ================================================================== U03: random generator
VH_SUITE(u03) {
    unsigned seed = (unsigned)r.next(); int what = idx % 4; config("%s", what == 0 ? "uniform draws" : what == 1 ? "normal draws" : what == 2 ? "elements" : "manifold points");
    auto warm = [&](int k) { genrandseed((unsigned)r.next()); for (int i = 0; i < k; i++) r.b() ? genrandreal() : genrandnormal(); genrandseed(seed); };
    if (what < 2) {
        const int N = 20000; std::vector<double> a(N), b(N); warm(r.i(0, 9)); for (auto &v : a) v = what ? genrandnormal() : genrandreal(); warm(r.i(0, 9)); for (auto &v : b) v = what ? genrandnormal() : genrandreal();
        expect(a == b, "U03.reproducible", "the same seed gave another sequence"); genrandseed(seed + 1); for (auto &v : b) v = what ? genrandnormal() : genrandreal(); expect(a != b, "U03.seeded", "another seed gave the same sequence");
        double m = 0, s = 0, q = 0, lag = 0, lo = HUGE_VAL, hi = -HUGE_VAL; for (double v : a) { m += v; lo = std::min(lo, v); hi = std::max(hi, v); expect(std::isfinite(v), "U03.finite", "draw %g", v); } m /= N; for (int i = 0; i < N; i++) { double d = a[i] - m; s += d * d; q += d * d * d * d; if (i) lag += d * (a[i - 1] - m); } s /= N; q /= N; lag /= N;
        double em = what ? 0 : 0.5, ev = what ? 1 : 1.0 / 12, ek = what ? 3 : 1.0 / 80; double se = 1 / std::sqrt((double)N);
        if (!what) { expect(lo >= 0 && hi <= 1, "U03.range", "draws in [%g,%g]", lo, hi); expect(lo < 0.01 && hi > 0.99, "U03.spread", "draws only in [%g,%g]", lo, hi); } else expect(hi > 2.5 && lo < -2.5 && hi < 7 && lo > -7, "U03.spread", "draws in [%g,%g]", lo, hi);
        small("U03.mean", std::fabs(m - em) / std::sqrt(ev), 6 * se, "mean"); small("U03.variance", std::fabs(s / ev - 1), 6 * se * std::sqrt(2.0), "variance"); small("U03.fourth", std::fabs(q / ek - 1), 6 * se * (what ? std::sqrt(96.0 / 9) : 1.2) , "fourth moment"); small("U03.lag", std::fabs(lag / ev), 6 * se, "correlation of successive draws");
        std::sort(a.begin(), a.end()); double ks = 0; for (int i = 0; i < N; i++) { double c = what ? 0.5 * std::erfc(-a[i] / std::sqrt(2.0)) : a[i]; ks = std::max(ks, std::max(std::fabs(c - (double)i / N), std::fabs(c - (double)(i + 1) / N))); } small("U03.distribution", ks, 3.2 * se, "distance of the distribution functions"); obs("draws", N); sig(what ? "normal" : "uniform"); sig("seed" + std::to_string(seed % 97)); return;
    }
    if (what == 2) {
        int m = r.i(1, 60), n = r.i(40, 120); bool cx = r.b(0.3), g = r.b(), prod = r.b(0.25); double p = r.n() * 3, q = g ? std::pow(10.0, r.u() * 4 - 2) : p + r.u() * 5 + 0.1; Element e(m, n, 1, cx ? "complex" : "real"), e2(e); if (prod) { Element t(m, n, 1, cx ? "complex" : "real"); Element pe(1, &t, 2); e = pe; e2 = pe; }
        detail("%dx%d %s (%.4g,%.4g)", m, n, g ? "RandGaussian" : "RandUnform", p, q); auto fill = [&](Element &E) { if (g) E.RandGaussian(p, q); else E.RandUnform(p, q); };
        if (r.b()) e.AddToFields("t", Element(1)); warm(r.i(0, 9)); fill(e); warm(r.i(0, 9)); fill(e2); expect(raw(e) == raw(e2), "U03.reproducible", "the same seed gave another element"); expect(!e.FieldsExist("t"), "U03.fields", "temporary data survived"); if (prod) for (int i = 0; i < 2; i++) { V c = raw(e.GetElement(i)); expect(std::memcmp(c.data(), raw(e).data() + i * c.size(), c.size() * 8) == 0, "U03.component", "component %d is not a part of the product", i); }
        V a = raw(e); size_t N = a.size(); double M = 0, S = 0; for (double v : a) M += v; M /= N; for (double v : a) S += (v - M) * (v - M); S /= N; double ev = g ? q : (q - p) * (q - p) / 12, em = g ? p : (p + q) / 2, se = 1 / std::sqrt((double)N);
        if (!g) for (double v : a) expect(v >= p - 1e-12 && v <= q + 1e-12, "U03.range", "entry %g outside [%g,%g]", v, p, q);
        small("U03.mean", std::fabs(M - em) / std::sqrt(ev), 6 * se, "mean of the entries"); small("U03.variance", std::fabs(S / ev - 1), 9 * se + 40.0 / N, "variance of the entries"); obs("elements"); sig(std::string(g ? "gauss" : "unif") + (cx ? " cx" : "") + (prod ? " prod" : "")); return;
    }
    FP F = mkfix(r, 0); config("point %s", F->name.c_str()); detail("%s", F->det.c_str()); warm(r.i(0, 9)); Variable a = F->M->RandominManifold(); double after = genrandreal(); warm(r.i(0, 9)); Variable b = F->M->RandominManifold(); double after2 = genrandreal(); Variable c = F->M->RandominManifold();
    expect(raw(a) == raw(b) && after == after2, "U03.reproducible", "the same seed gave another point"); if (F->dim > 1) expect(raw(b) != raw(c), "U03.seeded", "two draws gave the same point"); obs("points"); sig(F->name);
}
// ================================================================== S10: options of manifolds by name
#include "Manifolds/Stiefel.h"
#include "Manifolds/CStiefel.h"
#include "Manifolds/Sphere.h"
#include "Manifolds/SymFixedRankQ.h"
#include "Manifolds/CSymFixedRankQ.h"
#include "Manifolds/Grassmann.h"
#include "Manifolds/SPDManifold.h"
#include <sys/mman.h>
#include <unistd.h>
namespace {
struct Capture2 { int fd, save; Capture2() { fflush(stdout); save = dup(1); fd = memfd_create("out", 0); dup2(fd, 1); } std::string done() { fflush(stdout); dup2(save, 1); close(save); off_t n = lseek(fd, 0, SEEK_END); std::string s(n, 0); lseek(fd, 0, SEEK_SET); ssize_t k = read(fd, &s[0], n); (void)k; close(fd); return s; } };
template <class T> void choose(T &m, int k) { switch (k) { case 1: m.ChooseParamsSet1(); break; case 2: m.ChooseParamsSet2(); break; case 3: m.ChooseParamsSet3(); break; case 4: m.ChooseParamsSet4(); break; } }
void choose5(Stiefel &m, int k) { if (k == 5) m.ChooseParamsSet5(); else choose(m, k); }
void choose6(SymFixedRankQ &m, int k) { if (k == 5) m.ChooseParamsSet5(); else if (k == 6) m.ChooseParamsSet6(); else choose(m, k); }
}
VH_SUITE(s10m) {
    int kind = idx % 7, n = r.i(3, 7), p = r.i(1, 3), k = 0, sets[] = {5, 4, 4, 4, 4, 0, 0}; if (n < 2 * p) n = 2 * p; static const char *nm[] = {"Stiefel", "CStiefel", "Sphere", "SymFixedRankQ", "CSymFixedRankQ", "Grassmann", "SPD"};
    auto mk = [&]() -> Manifold * { switch (kind) { case 0: return new Stiefel(n, p); case 1: return new CStiefel(n, p); case 2: return new Sphere(n); case 3: return new SymFixedRankQ(n, p); case 4: return new CSymFixedRankQ(n, p); case 5: return new Grassmann(n, p); default: return new SPDManifold(n); } };
    if (kind == 3) sets[3] = 6; if (sets[kind] && r.b(0.8)) k = r.i(1, sets[kind]); int h = r.b(0.6) ? r.i(0, 1) : -1; int mode = r.i(0, 2);
    config("%s", nm[kind]); detail("n=%d p=%d ParamSet=%d HasHHR=%d mode=%d", n, p, k, h, mode); sig(std::string(nm[kind]) + std::to_string(k) + std::to_string(h));
    std::unique_ptr<Manifold> A(mk()), B(mk()), C(mk());
    // directly: the parameter set, then the switch
    auto direct = [&](Manifold *m) { if (k) switch (kind) { case 0: choose5(*static_cast<Stiefel *>(m), k); break; case 1: choose(*static_cast<CStiefel *>(m), k); break; case 2: choose(*static_cast<Sphere *>(m), k); break; case 3: choose6(*static_cast<SymFixedRankQ *>(m), k); break; case 4: choose(*static_cast<CSymFixedRankQ *>(m), k); break; } if (h >= 0) m->SetHasHHR(h != 0); };
    direct(A.get()); PARAMSMAP P; if (k) P["ParamSet"] = k; if (h >= 0) P["HasHHR"] = h; if (mode == 1) { P["paramset"] = 2; P["HasHHr"] = 1; P["NoSuchOption"] = 3; P["metric"] = 1; }
    if (mode == 2) { PARAMSMAP a, b; if (k) a["ParamSet"] = k; if (h >= 0) b["HasHHR"] = h; B->SetParams(a); B->SetParams(b); } else B->SetParams(P);
    auto text = [](Manifold *m) { Capture2 c; m->CheckParams(); return c.done(); };
    std::string ta = text(A.get()), tb = text(B.get()); expect(ta == tb, "S10.manifold.report", "settings by name reported as %s, direct settings as %s", tb.c_str(), ta.c_str()); expect(text(B.get()) == tb && tb.find("GENERAL") != std::string::npos, "S10.manifold.report", "the report changes from call to call");
    expect(A->GetHasHHR() == B->GetHasHHR() && A->GetIsIntrinsic() == B->GetIsIntrinsic(), "S10.manifold.switch", "HasHHR %d, intrinsic %d set by name; %d, %d set directly", (int)B->GetHasHHR(), (int)B->GetIsIntrinsic(), (int)A->GetHasHHR(), (int)A->GetIsIntrinsic());
    // the same geometry
    Variable x = A->RandominManifold(), y(x), y2(x); Vector E(A->GetEMPTYEXTR()); E.RandGaussian(); Vector e(A->GetEMPTYEXTR()); A->ExtrProjection(x, E, &e); if (!A->GetIsIntrinsic()) { } Vector u(A->GetEMPTY()); if (A->GetIsIntrinsic()) A->ObtainIntr(x, e, &u); else u = e; double un = std::sqrt(A->Metric(x, u, u)); A->ScalarTimesVector(x, 0.5 / un, u, &u);
    auto run = [&](Manifold *m) { Variable z(x); z.RemoveAllFromFields(); V out; Variable w(z); m->Retraction(z, u, &w); V t = raw(w); out.insert(out.end(), t.begin(), t.end()); out.push_back(m->Metric(z, u, u)); Vector d(u); m->VectorTransport(z, u, w, u, &d); t = raw(d); out.insert(out.end(), t.begin(), t.end()); out.push_back(m->Beta(z, u)); return out; };
    Capture2 c; V a = run(A.get()), b = run(B.get()); c.done(); bool eq = a.size() == b.size(); for (size_t i = 0; eq && i < a.size(); i++) eq = a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]); expect(eq, "S10.manifold.geometry", "retraction, metric or transport differ between settings by name and direct settings"); obs("manifold settings compared");
    // a parameter set that does not exist changes nothing
    if (r.b(0.3)) { PARAMSMAP q; q["ParamSet"] = r.pickd({0, -1, 17, 100}); B->SetParams(q); std::string td = text(B.get()); PARAMSMAP o; o["ParamSet"] = 1; C->SetParams(o); if (h >= 0) C->SetHasHHR(h != 0); expect(td == tb || td == text(C.get()), "S10.manifold.invalid", "an unknown parameter set leads to settings that are neither the previous nor the default ones"); obs("unknown parameter sets"); }
}
