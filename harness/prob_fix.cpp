#include "prob.h"
#include "Problems/StieBrockett.h"
#include "Problems/CStieBrockett.h"
#include "Problems/GrassRQ.h"
#include "Problems/EucQuadratic.h"
#include "Problems/ProdStieSumBrockett.h"
#include "Problems/SPDKarcherMean.h"
#include "Problems/SFRQLyapunov.h"
#include "Problems/CSFRQPhaseRetrieval.h"
#include "Problems/CFRankQ2FBlindDecon2D.h"
#include "Problems/FRankEWeightApprox.h"
#include "Problems/FRankESparseApprox.h"
#include "Problems/FRankQ2FMatCompletion.h"
#include "Problems/SphereSparsestVector.h"
#include "Problems/SphereConvexHull.h"
#include "Problems/SphereTxRQ.h"
#include "Problems/StieSPCA.h"
using namespace ROPTLIB;
namespace vh {
static const double PI2 = 6.283185307179586476925286766559;
// plain DFT of an n1 x n2 array; sign -1 forward, +1 backward, unscaled
static Mat dft2(const Mat &A, int sign) {
    Mat B(A.m, A.n, true);
    for (int k = 0; k < A.m; k++) for (int l = 0; l < A.n; l++) { cd s = 0; for (int i = 0; i < A.m; i++) for (int j = 0; j < A.n; j++) s += A(i, j) * std::polar(1.0, sign * PI2 * ((double)(k * i) / A.m + (double)(l * j) / A.n)); B(k, l) = s; }
    return B;
}
static Mat haarmat(int L);
static Mat invhaar(const Mat &v) { return Tr(haarmat(v.m)) * v; }
// orthonormal Haar analysis matrix built from a known recursion: rows [averages; details]
static Mat haarmat(int L) {
    if (L == 1) return Mat::eye(1, true);
    Mat h = haarmat(L / 2), M(L, L, true); double s = 1 / std::sqrt(2.0);
    for (int i = 0; i < L / 2; i++) { for (int j = 0; j < L / 2; j++) { M(i, 2 * j) = h(i, j) * s; M(i, 2 * j + 1) = h(i, j) * s; } M(L / 2 + i, 2 * i) = s; M(L / 2 + i, 2 * i + 1) = -s; }
    return M;
}
static Mat symm(Rng &r, int n, bool cx = false, bool pd = false) { if (pd) return randspd(r, n, cx, 10); return sym(randm(r, n, n, cx)); }
static SparseMatrix *sparse(Rng &r, PF &p, const Mat &A, bool cx) {   // triplets in random order, a few split in two
    std::vector<int> *ir = new std::vector<int>, *jc = new std::vector<int>; V *v = new V;
    struct T { int i, j; cd v; }; std::vector<T> t;
    for (int i = 0; i < A.m; i++) for (int j = 0; j < A.n; j++) if (A(i, j) != cd(0)) { if (r.b(0.1)) { t.push_back({i, j, 0.25 * A(i, j)}); t.push_back({i, j, 0.75 * A(i, j)}); } else t.push_back({i, j, A(i, j)}); }
    for (int k = (int)t.size() - 1; k > 0; k--) std::swap(t[k], t[r.i(0, k)]);
    for (auto &e : t) { ir->push_back(e.i); jc->push_back(e.j); v->push_back(e.v.real()); if (cx) v->push_back(e.v.imag()); }
    p.keep.push_back(std::shared_ptr<void>(ir, [](void *q) { delete (std::vector<int> *)q; })); p.keep.push_back(std::shared_ptr<void>(jc, [](void *q) { delete (std::vector<int> *)q; })); p.keep.push_back(std::shared_ptr<void>(v, [](void *q) { delete (V *)q; }));
    p.holdraw(ir->data(), ir->size() * sizeof(int)); p.holdraw(jc->data(), jc->size() * sizeof(int)); p.holdraw(v->data(), v->size() * sizeof(double));
    SparseMatrix *S = cx ? new SparseMatrix(A.m, A.n, ir->data(), jc->data(), (realdpcomplex *)v->data(), (int)t.size()) : new SparseMatrix(A.m, A.n, ir->data(), jc->data(), v->data(), (int)t.size());
    p.keep.push_back(std::shared_ptr<void>(S, [](void *q) { delete (SparseMatrix *)q; }));
    return S;
}
static Mat sparsify(Rng &r, Mat A, double keep) { for (auto &z : A.a) if (!r.b(keep)) z = 0; A(0, 0) = 1; return A; }
static Element vecel(const V &v) { Element e((int)v.size()); return fromflat(e, v); }
static FP want(Rng &r, int kind, const std::function<bool(Fix &)> &w, const std::function<bool(Fix &)> &extra = nullptr) {
    for (int t = 0; t < 100000; t++) { FP f = mkfix(r, F_NOHHR, kind); if ((!extra || extra(*f)) && (!w || w(*f))) return f; }
    abort();
}
PFP mkproblem(Rng &r, int kind, const std::function<bool(Fix &)> &w, bool plant) {
    PFP q(new PF); PF &p = *q; char b[128];
    if (kind < 0) kind = r.i(0, PK_COUNT - 1);
    p.pair = [](const Element &a, const Element &c) { return vdot(raw(a), raw(c)); };
    auto dims = [&](int &n, int &k) { n = p.M->GetEMPTYEXTR().Getrow(); k = p.M->GetEMPTYEXTR().Getcol(); };
    int n, k; auto star = [&](const V &v) { p.xs.reset(new Variable(fromflat(p.M->GetEMPTYEXTR(), v))); }; auto draw = [&]() { for (;;) { double c; Variable x = p.fix->pt(r, c); double nx = vn(raw(x)); if (p.fix->condition(x) < 8 && nx > 0.5 && nx < 20) { p.xs.reset(new Variable(x)); return x; } } };
    auto eigstar = [&](const Mat &B, const V &d, int nn, int kk) { V ev; Mat U; symeig(B, ev, U); std::vector<int> o(kk); for (int i = 0; i < kk; i++) o[i] = i; std::sort(o.begin(), o.end(), [&](int a, int c) { return d[a] > d[c]; }); Mat X(nn, kk, B.cx); int lo = 0, hi = nn - 1, np = 0; for (int i = 0; i < kk; i++) np += d[i] > 0; (void)hi; for (int t = 0; t < kk; t++) { int col = o[t], e = d[col] > 0 ? lo++ : nn - (kk - t); for (int i = 0; i < nn; i++) X(i, col) = U(i, e); } return X; };
    switch (kind) {
    case PK_EUC: {
        p.name = "EucQuadratic"; p.fix = want(r, 0, w, [](Fix &f) { return !f.M->GetEMPTYEXTR().Getiscomplex() && f.M->GetEMPTYEXTR().Getnum() == 1; }); p.M = p.fix->M; dims(n, k);
        Mat A = symm(r, n, false, plant || r.b(0.7)); if (plant) star(V((size_t)n * k, 0.0)); p.P.reset(new EucQuadratic(p.hold(el(A)))); p.f0 = [=](const V &x) { Mat X = unfl(x.data(), n, k, false); return 0.5 * rdot(X, A * X); }; p.deg = 2; break; }
    case PK_BROCKETT: {
        p.name = "StieBrockett"; p.fix = want(r, 1, w); p.M = p.fix->M; dims(n, k); Mat B = symm(r, n); V d; for (int i = 0; i < k; i++) d.push_back(plant ? (r.b() ? 1 : -1) * (1 + 0.7 * i) : r.b(0.7) ? k - i : r.n()); if (plant) star(fl(eigstar(B, d, n, k)));
        p.P.reset(new StieBrockett(p.hold(el(B)), p.hold(vecel(d)))); p.f0 = [=](const V &x) { Mat X = unfl(x.data(), n, k, false), Y = B * X; double s = 0; for (int j = 0; j < k; j++) for (int i = 0; i < n; i++) s += d[j] * (X(i, j) * Y(i, j)).real(); return s; }; p.deg = 2; break; }
    case PK_CBROCKETT: {
        p.name = "CStieBrockett"; p.fix = want(r, 3, w); p.M = p.fix->M; dims(n, k); Mat B = symm(r, n, true); Mat D(k, 1, true); V d; for (int i = 0; i < k; i++) { d.push_back(plant ? (r.b() ? 1 : -1) * (1 + 0.7 * i) : r.b(0.7) ? k - i : r.n()); D(i, 0) = d[i]; } if (plant) star(fl(eigstar(B, d, n, k)));
        Element De(k, 1, "complex"); De = fromflat(De, fl(D));
        p.P.reset(new CStieBrockett(p.hold(el(B)), p.hold(De))); p.f0 = [=](const V &x) { Mat X = unfl(x.data(), n, k, true), Y = B * X; double s = 0; for (int j = 0; j < k; j++) for (int i = 0; i < n; i++) s += d[j] * (std::conj(X(i, j)) * Y(i, j)).real(); return s; }; p.deg = 2; break; }
    case PK_GRASSRQ: {
        p.name = "GrassRQ"; p.fix = want(r, 5, w); p.M = p.fix->M; dims(n, k); Mat B = symm(r, n); p.P.reset(new GrassRQ(p.hold(el(B)), n, k)); p.f0 = [=](const V &x) { Mat X = unfl(x.data(), n, k, false); return 0.5 * rdot(X, B * X); }; p.deg = 2;
        std::vector<double> ev; Mat U; symeig(B, ev, U); p.fmin_known = true; for (int i = 0; i < k; i++) p.fmin += 0.5 * ev[i]; if (plant) star(fl(eigstar(B, V(k, 1.0), n, k))); break; }
    case PK_PROD: {
        p.name = "ProdStieSumBrockett"; std::vector<FP> ty; auto noext = [](Fix &f) { return f.name.find("/extr") == std::string::npos; }; ty.push_back(want(r, 1, nullptr, noext)); ty.push_back(want(r, 1, nullptr, noext));
        int n1 = ty[0]->M->GetEMPTYEXTR().Getrow(), p1 = ty[0]->M->GetEMPTYEXTR().Getcol(), n2 = ty[1]->M->GetEMPTYEXTR().Getrow(), p2 = ty[1]->M->GetEMPTYEXTR().Getcol();
        p.fix = mkprod(std::move(ty), {2, 1}); p.M = p.fix->M; Mat B[3]; V D[3]; for (int i = 0; i < 3; i++) { B[i] = symm(r, i < 2 ? n1 : n2); for (int j = 0; j < (i < 2 ? p1 : p2); j++) D[i].push_back((i < 2 ? p1 : p2) - j + (r.b(0.3) ? r.u() : 0)); }
        p.P.reset(new ProdStieSumBrockett(p.hold(el(B[0])), p.hold(vecel(D[0])), p.hold(el(B[1])), p.hold(vecel(D[1])), p.hold(el(B[2])), p.hold(vecel(D[2]))));
        if (plant) { V all; for (int i = 0; i < 3; i++) { V v = fl(eigstar(B[i], D[i], i < 2 ? n1 : n2, i < 2 ? p1 : p2)); all.insert(all.end(), v.begin(), v.end()); } star(all); }
        Mat B0 = B[0], B1 = B[1], B2 = B[2]; V D0 = D[0], D1 = D[1], D2 = D[2];
        p.f0 = [=](const V &x) { double s = 0; const double *q = x.data(); auto one = [&](const Mat &Bm, const V &d, int nn, int pp) { Mat X = unfl(q, nn, pp, false), Y = Bm * X; for (int j = 0; j < pp; j++) for (int i = 0; i < nn; i++) s += d[j] * (X(i, j) * Y(i, j)).real(); q += nn * pp; }; one(B0, D0, n1, p1); one(B1, D1, n1, p1); one(B2, D2, n2, p2); return s; }; p.deg = 2; break; }
    case PK_KARCHER: {
        p.name = "SPDKarcherMean"; p.fix = want(r, 6, w); p.M = p.fix->M; dims(n, k); int num = r.i(1, 4); Element Ls(0); Element one(n, n); Element all(1, &one, num); all.NewMemoryOnWrite(); std::vector<Mat> As; Mat Uq = randorth(r, n, n); V lm(n, 0.0);
        for (int i = 0; i < num; i++) { Mat A = randspd(r, n, false, r.pickd({1.5, 10})); if (plant) { V e; for (int t = 0; t < n; t++) { e.push_back(0.5 + 2 * r.u()); lm[t] += std::log(e[t]) / num; } Mat De(n, n); for (int t = 0; t < n; t++) De(t, t) = e[t]; A = sym(Uq * De * H(Uq)); } Mat L(n, n); for (int c = 0; c < n; c++) { double s = A(c, c).real(); for (int t = 0; t < c; t++) s -= std::norm(L(c, t)); L(c, c) = std::sqrt(s); for (int t = c + 1; t < n; t++) { cd u = A(t, c); for (int z = 0; z < c; z++) u -= L(t, z) * L(c, z); L(t, c) = u / L(c, c); } } all.GetElement(i) = el(L); As.push_back(funsym(A, [](double t) { return 1 / std::sqrt(t); })); }
        if (plant) { Mat De(n, n); for (int t = 0; t < n; t++) De(t, t) = std::exp(lm[t]); star(fl(sym(Uq * De * H(Uq)))); }
        p.P.reset(new SPDKarcherMean(p.hold(all), n, num)); p.sym = true; p.deg = 0; p.hrel = 1e-2; p.fdtol = 1e-6;
        p.f0 = [=](const V &x) { Mat X = sym(unfl(x.data(), n, n, false)); double s = 0; for (auto &S : As) { std::vector<double> ev; Mat U; symeig(sym(S * X * S), ev, U); for (double t : ev) s += std::log(t) * std::log(t); } return s / (2 * num); }; break; }
    case PK_LYAP: {
        p.name = "SFRQLyapunov"; p.fix = want(r, 7, w); p.M = p.fix->M; dims(n, k); Mat A = symm(r, n, false, r.b()), B = symm(r, n, false, r.b()); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if (r.b(0.4)) A(i, j) = A(j, i) = 0; else if (r.b(0.4)) B(i, j) = B(j, i) = 0;
        for (int i = 0; i < n; i++) { A(i, i) += 2; B(i, i) += 2; } int cp = r.i(1, 3); Mat C = randm(r, n, cp); if (plant) { draw(); Mat Y = of(*p.xs), X = sym(Y * H(Y)); V ev; Mat U; symeig(X, ev, U); Mat Da(n, n), Dc(n, n); for (int i = 0; i < n; i++) { Da(i, i) = 1 + 2 * r.u(); Dc(i, i) = std::sqrt(std::max(0.0, 2 * Da(i, i).real() * ev[i])); } A = sym(U * Da * H(U)); B = Mat::eye(n); C = U * Dc; cp = n; } SparseMatrix *sa = sparse(r, p, A, false), *sb = sparse(r, p, B, false);
        p.P.reset(new SFRQLyapunov(*sa, *sb, p.hold(el(C)), k)); p.f0 = [=](const V &x) { Mat X = unfl(x.data(), n, k, false), Y = X * H(X); return trace(Y * A * Y * B).real() - trace(Y * C * H(C)).real(); }; break; }
    case PK_PHASE: {
        p.name = "CSFRQPhaseRetrieval"; p.fix = want(r, 8, w); p.M = p.fix->M; dims(n, k); int n1 = 1; { std::vector<int> d; for (int i = 1; i <= n; i++) if (n % i == 0) d.push_back(i); n1 = r.pick(d); } int n2 = n / n1, l = r.i(1, 3); double kappa = r.b() ? 0 : r.u();
        Mat Z = randm(r, n, l, true); V bb; Mat X0 = randm(r, n, 1, true); bool planted = r.b(); if (plant) { draw(); kappa = 0; l = 2 + r.i(2, 4); Z = randm(r, n, l, true); }
        for (int i = 0; i < l; i++) { Mat t(n1, n2, true); for (int z = 0; z < n; z++) t.a[z] = Z(z, i) * X0(z, 0) / std::sqrt((double)n); Mat F = dft2(t, -1); for (int z = 0; z < n; z++) bb.push_back(planted ? std::norm(F.a[z]) : r.u() + 0.1); }
        if (plant) { bb.clear(); Mat X = of(*p.xs); for (int i = 0; i < l; i++) { V acc(n, 0.0); for (int j = 0; j < k; j++) { Mat t(n1, n2, true); for (int z = 0; z < n; z++) t.a[z] = Z(z, i) * X(z, j) / std::sqrt((double)n); Mat F = dft2(t, -1); for (int z = 0; z < n; z++) acc[z] += std::norm(F.a[z]); } bb.insert(bb.end(), acc.begin(), acc.end()); } }
        p.P.reset(new CSFRQPhaseRetrieval(p.hold(vecel(bb)), p.hold(el(Z)), kappa, n1, n2, l, k));
        p.f0 = [=](const V &x) { Mat X = unfl(x.data(), n, k, true); double s = 0, bn = 0; for (double t : bb) bn += t * t; for (int i = 0; i < l; i++) { V acc(n, 0.0); for (int j = 0; j < k; j++) { Mat t(n1, n2, true); for (int z = 0; z < n; z++) t.a[z] = Z(z, i) * X(z, j) / std::sqrt((double)n); Mat F = dft2(t, -1); for (int z = 0; z < n; z++) acc[z] += std::norm(F.a[z]); } for (int z = 0; z < n; z++) s += (acc[z] - bb[i * n + z]) * (acc[z] - bb[i * n + z]); } return s / bn + kappa * rdot(X, X); }; break; }
    case PK_WEIGHT: {
        p.name = "FRankEWeightApprox"; p.fix = want(r, 9, w); p.M = p.fix->M; dims(n, k); Mat A = randm(r, n, k), W = symm(r, n * k, false, true); if (plant) { draw(); A = of(*p.xs); }
        p.P.reset(new FRankEWeightApprox(p.hold(el(A)), p.hold(el(W)), n, k, r.i(1, 1))); p.f0 = [=](const V &x) { Mat d = vec(unfl(x.data(), n, k, false) - A); return rdot(d, W * d); }; p.deg = 2; break; }
    case PK_SPARSE: {
        p.name = "FRankESparseApprox"; p.fix = want(r, 9, w); p.M = p.fix->M; dims(n, k); Mat A = randm(r, n, k); p.lambda = r.pickd({0.0, 0.01, 0.3, 2}); p.smooth = false; int lw = r.b() ? 1 : n * k;
        p.P.reset(new FRankESparseApprox(p.hold(el(A)), p.lambda, n, k, 1, lw)); p.f0 = [=](const V &x) { Mat d = unfl(x.data(), n, k, false) - A; return rdot(d, d); }; p.deg = 2; break; }
    case PK_COMPL: {
        p.name = "FRankQ2FMatCompletion"; p.fix = want(r, 10, w); p.M = p.fix->M; Element e = p.M->GetEMPTYEXTR(); int m = e.GetElement(0).Getrow(), nn = e.GetElement(1).Getrow(), rk = e.GetElement(0).Getcol();
        std::vector<int> *ir = new std::vector<int>, *jc = new std::vector<int>; V *v = new V; p.keep.push_back(std::shared_ptr<void>(ir, [](void *z) { delete (std::vector<int> *)z; })); p.keep.push_back(std::shared_ptr<void>(jc, [](void *z) { delete (std::vector<int> *)z; })); p.keep.push_back(std::shared_ptr<void>(v, [](void *z) { delete (V *)z; }));
        Mat G = randm(r, m, rk), Hm = randm(r, nn, rk), T = G * H(Hm); bool exact = r.b(); double dens = r.pickd({0.3, 0.7, 1.0}); if (plant) { V v0 = raw(draw()); G = unfl(v0.data(), m, rk, false); Hm = unfl(v0.data() + m * rk, nn, rk, false); T = G * H(Hm); exact = true; dens = r.pickd({0.8, 1.0}); }
        for (int i = 0; i < m; i++) for (int j = 0; j < nn; j++) if (r.b(dens)) { ir->push_back(i); jc->push_back(j); v->push_back(exact ? T(i, j).real() : r.n()); } if (ir->empty()) { ir->push_back(0); jc->push_back(0); v->push_back(plant ? T(0, 0).real() : 1); }
        for (int i = (int)ir->size() - 1; i > 0; i--) { int j = r.i(0, i); std::swap((*ir)[i], (*ir)[j]); std::swap((*jc)[i], (*jc)[j]); std::swap((*v)[i], (*v)[j]); }
        p.holdraw(ir->data(), ir->size() * sizeof(int)); p.holdraw(jc->data(), jc->size() * sizeof(int)); p.holdraw(v->data(), v->size() * sizeof(double)); if (exact) { p.fmin_known = true; p.fmin = 0; }
        p.P.reset(new FRankQ2FMatCompletion(ir->data(), jc->data(), v->data(), (int)ir->size(), m, nn, rk));
        p.f0 = [=](const V &x) { double s = 0; for (size_t t = 0; t < ir->size(); t++) { double y = -(*v)[t]; for (int c = 0; c < rk; c++) y += x[(*ir)[t] + c * m] * x[m * rk + (*jc)[t] + c * nn]; s += y * y; } return 0.5 * s; }; break; }
    case PK_DECON: {
        p.name = "CFRankQ2FBlindDecon2D"; p.fix = want(r, 11, w, [](Fix &f) { Element e = f.M->GetEMPTYEXTR(); int m = e.GetElement(0).Getrow(), q = e.GetElement(1).Getrow(); return m == q && e.GetElement(0).Getcol() == 1 && (m & (m - 1)) == 0; }); p.M = p.fix->M; int L = p.M->GetEMPTYEXTR().GetElement(0).Getrow();
        int n1 = 1; { std::vector<int> d; for (int i = 1; i <= L; i++) if (L % i == 0) d.push_back(i); n1 = r.pick(d); } int n2 = L / n1; Mat B = sparsify(r, randm(r, L, L, true), r.pickd({0.4, 1.0})), C = sparsify(r, randm(r, L, L, true), r.pickd({0.4, 1.0})), y = randm(r, L, 1, true);
        double rho = plant || r.b() ? 0 : r.u(), d = 0.5 + r.u(), mu = 0.5 + r.u(); SparseMatrix *sb = sparse(r, p, B, true), *sc = sparse(r, p, C, true); if (plant) { V v0 = raw(draw()); Mat U = unfl(v0.data(), L, 1, true), Vv = unfl(v0.data() + 2 * L, L, 1, true); Mat a = dft2(reshape(B * U, n1, n2), -1), c = dft2(reshape(invhaar(C * Vv), n1, n2), 1); for (int i = 0; i < L; i++) y.a[i] = a.a[i] * std::conj(c.a[i]); } Element ye(L, 1, "complex"); ye = fromflat(ye, fl(y));
        p.P.reset(new CFRankQ2FBlindDecon2D(p.hold(ye), *sb, *sc, n1, n2, 1, rho, d, mu)); p.hess = rho == 0; if (rho != 0) { p.deg = 0; p.hrel = 2e-4; p.fdtol = 1e-5; }
        p.f0 = [=](const V &x) { Mat U = unfl(x.data(), L, 1, true), Vv = unfl(x.data() + 2 * L, L, 1, true); Mat a = dft2(reshape(B * U, n1, n2), -1), c = dft2(reshape(invhaar(C * Vv), n1, n2), 1); double s = 0, pen = 0, vv = rdot(Vv, Vv); for (int i = 0; i < L; i++) { s += std::norm(y.a[i] - a.a[i] * std::conj(c.a[i])); double t = L / (8 * d * d * mu * mu) * std::norm(a.a[i]) * vv - 1; if (t > 0) pen += rho * t * t; } return s + pen; }; break; }
    case PK_SPARSEST: {
        p.name = "SphereSparsestVector"; p.fix = want(r, 4, w); p.M = p.fix->M; dims(n, k); int m = n + r.i(0, 8); Mat Q = randorth(r, m, n); p.P.reset(new SphereSparsestVector(p.hold(el(Q)))); p.smooth = false; p.pw = true; p.hess = false;
        p.f0 = [=](const V &x) { Mat X = unfl(x.data(), n, 1, false), Y = Q * X; double s = 0; for (auto &z : Y.a) s += std::fabs(z.real()); return s; }; p.deg = 1; break; }
    case PK_SPCA: {
        p.name = "StieSPCA"; p.fix = want(r, 1, w); p.M = p.fix->M; dims(n, k); int m = r.i(1, 8); Mat B = randm(r, m, n); p.lambda = r.pickd({0.0, 0.05, 0.5, 2}); p.smooth = false; int lw = r.i(0, 2) == 0 ? 1 : r.b() ? k : n * k;
        p.P.reset(new StieSPCA(p.hold(el(B)), p.lambda, n, m, k, lw)); p.f0 = [=](const V &x) { Mat Y = B * unfl(x.data(), n, k, false); return -rdot(Y, Y); }; p.deg = 2; break; }
    case PK_TXRQ: {
        p.name = "SphereTxRQ"; Fix *in; Variable *root; p.fix = mktx(r, &in, &root); p.M = p.fix->M; bool mn = r.b(); TestProblem *T = new TestProblem(r, in, *root); p.keep.push_back(std::shared_ptr<void>(T, [](void *z) { delete (TestProblem *)z; }));
        p.P.reset(new SphereTxRQ(in->M, root, T, mn)); Element sh = in->M->GetEMPTY(); Variable rt = *root; p.pair = [=](const Element &a, const Element &c) { return in->met(rt, in->E(rt, a), in->E(rt, c)); };
        p.f0 = [=](const V &x) { Vector e = in->E(rt, fromflat(sh, x)), ge(in->M->GetEMPTY()); V z = in->emb(rt), gz = T->G(z); T->f(rt); T->Grad(rt, &ge); double t = vdot(T->HV(z, in->demb(rt, e)), in->demb(rt, e)) + in->hcorr(rt, e, e, gz, in->E(rt, ge)); return mn ? t : -t; }; p.deg = 2; p.ftol = 1e-7; p.fdtol = 1e-7; break; }
    case PK_HULL: {
        p.name = "SphereConvexHull"; p.fix = want(r, 4, w); p.M = p.fix->M; dims(n, k); int d = r.i(1, 6); Element *W = new Element[n]; p.keep.push_back(std::shared_ptr<void>(W, [](void *z) { delete[] (Element *)z; })); std::vector<Mat> Ws; for (int i = 0; i < n; i++) { Ws.push_back(randm(r, d, 1)); W[i] = el(Ws[i]); p.data.push_back({&W[i], raw(W[i])}); }
        p.P.reset(new SphereConvexHull(p.M, W, n, nullptr, nullptr)); p.f0 = [=](const V &x) { Mat s(d, 1); for (int i = 0; i < n; i++) s = s + cd(x[i] * x[i]) * Ws[i]; return rdot(s, s); }; break; }
    }
    p.P->SetDomain(p.M); if (p.xs) { p.fmin_known = true; p.fmin = p.f0(raw(*p.xs)); }
    snprintf(b, sizeof b, "%s", p.fix->name.c_str()); p.det = std::string(b) + " " + p.fix->det;
    return q;
}
}
