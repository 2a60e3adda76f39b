#include "mani.h"
using namespace ROPTLIB;
using namespace vh;
namespace {
// arguments of an operation must come back unchanged
struct Guard {
    std::vector<std::pair<const Element *, V>> a; std::vector<std::pair<std::pair<int,int>, std::pair<int,bool>>> sh; const char *check;
    Guard(const char *c, std::initializer_list<const Element *> l) : check(c) { for (auto e : l) { a.push_back({e, flt(*e)}); sh.push_back({{e->Getrow(), e->Getcol()}, {e->Getnum(), e->Getiscomplex()}}); } }
    void done(const char *op) { for (size_t i = 0; i < a.size(); i++) { V w = flt(*a[i].first); bool ok = w.size() == a[i].second.size() && (w.empty() || !memcmp(w.data(), a[i].second.data(), w.size() * sizeof(double))) && sh[i] == std::make_pair(std::make_pair((int)a[i].first->Getrow(), (int)a[i].first->Getcol()), std::make_pair((int)a[i].first->Getnum(), a[i].first->Getiscomplex())); expect(ok, check, "%s changed argument %zu", op, i); } }
};
struct Ctx {
    FP F; Variable x; double cond = 1, tol = 1;
    Ctx(Rng &r, int flags = 0, int kind = -1) {
        F = mkfix(r, flags, kind);
        config("%s", F->name.c_str()); detail("%s", F->det.c_str());
        x = mkpoint(r, *F, cond); tol = cond * cond; if (tol > 1e8) tol = 1e8; if (tol < 10) tol = 10;
        obs(("fixture " + F->name.substr(0, F->name.find_first_of("(/"))).c_str()); sig(F->name.substr(0, 40) + " " + F->det.substr(0, 40));
        obs("configurations");
    }
};
double relv(const V &a, const V &b, double floor_ = 1e-300) { double e = vn(vsub(a, b)), s = std::max(floor_, std::max(vn(a), vn(b))); return s < HUGE_VAL ? e / s : HUGE_VAL; }
Vector dirty(Rng &r, Fix &F, const Vector &like) { if (r.b()) return F.M->GetEMPTY(); Vector v(like); return v; }
double sgn_scale(Rng &r) { return r.pickd({1e-6, 1e-2, 0.1, 0.5, 1.0, 2.0}); }
}
#define M_ (C.F->M)
#define F_ (*C.F)

VH_SUITE(m01) {
    Ctx C(r); Fix &F = F_;
    { Variable y = M_->RandominManifold(); small("M01.random", F.feas(y), 1e-12 * C.tol, "random point"); obs("random points"); }
    small("M01.feas", F.feas(C.x), 1e-12 * C.tol, "starting point");
    // single steps of any scale inside the domain of the retraction
    for (int k = 0; k < 3; k++) {
        Vector e = F.step(r, C.x, r.pickd({1e-8, 1e-3, 0.3, 1, 3, 8})); Vector w = F.W(C.x, e); Guard g("M01.args", {&C.x, &w});
        Variable y = r.b() ? Variable(C.x) : Variable(M_->GetEMPTYEXTR()); M_->Retraction(C.x, w, &y); g.done("Retraction");
        small("M01.retr", F.feas(y), 1e-11 * C.tol, "retracted point"); obs("retractions");
    }
    int K = thorough() ? 200 : 40; Variable x = C.x; double s = r.pickd({1e-3, 0.05, 0.3});
    for (int k = 0; k < K; k++) {
        if (F.condition(x) > 1e8) { obs("chains stopped at an ill-conditioned point"); break; }
        Vector w = F.W(x, F.step(r, x, s)); Variable y(x); M_->Retraction(x, w, &y); x = y;
        if (k % 8 == 7) {
            small("M01.chain", F.feas(x), 1e-12 * C.tol * (k + 2), "repeated retraction");
            if (nfail()) return;
        }
        obs("retractions");
    }
}

VH_SUITE(m02) {
    Ctx C(r); Fix &F = F_;
    Vector z = F.amb(r, C.x); if (r.b(0.2)) z = fromflat(z, [&] { V v = flt(z); double s = r.pickd({1e-7, 1e6}); for (auto &t : v) t *= s; return v; }());
    double zs = vn(flt(z));
    Guard g("M02.args", {&C.x, &z});
    Vector P = r.b() ? Vector(M_->GetEMPTYEXTR()) : Vector(z); M_->ExtrProjection(C.x, z, &P); g.done("ExtrProjection");
    small("M02.tangent", F.tang(C.x, P) * vn(flt(P)) / std::max(zs, 1e-300), 1e-11 * C.tol, "projection is tangent");
    Vector PP(M_->GetEMPTYEXTR()); M_->ExtrProjection(C.x, P, &PP);
    small("M02.idempotent", vn(vsub(flt(PP), flt(P))) / zs, 1e-11 * C.tol);
    Vector al(z); M_->ExtrProjection(C.x, al, &al);
    small("M02.alias", vn(vsub(F.extdistinct(C.x, al), F.extdistinct(C.x, P))) / std::max(zs, vn(F.extdistinct(C.x, P))), 1e-13 * C.tol);
    obs("projections", 3);
    for (int k = 0; k < 3; k++) {
        Vector v = F.tvs(r, C.x, 1.0), Q(M_->GetEMPTYEXTR()); M_->ExtrProjection(C.x, v, &Q);
        small("M02.fixes", relv(F.extdistinct(C.x, Q), F.extdistinct(C.x, v)), 1e-11 * C.tol, "tangent vector fixed");
        Vector res = fromflat(z, vsub(flt(z), flt(P))); double nv = F.nm(C.x, v), nz = std::max(F.nm(C.x, z), F.nm(C.x, P));
        small("M02.orthogonal", std::fabs(F.met(C.x, res, v)) / (nv * nz), 1e-10 * C.tol, "z-Pz orthogonal"); obs("inner products with independent tangents");
    }
    // Projection dispatches on the representation in use
    Vector v = F.tvs(r, C.x, 1.0), w = F.W(C.x, v), o = dirty(r, F, w); Guard g2("M02.args", {&C.x, &w}); M_->Projection(C.x, w, &o); g2.done("Projection");
    small("M02.working", relv(flt(o), flt(w)), 1e-11 * C.tol, "working representation fixed");
    if (M_->GetIsIntrinsic()) { Vector i2 = dirty(r, F, w); M_->IntrProjection(C.x, w, &i2); small("M02.intr", relv(flt(i2), flt(w)), 1e-11 * C.tol); }
    else { small("M02.dispatch", 0, 1); Vector q(z); M_->Projection(C.x, z, &q); small("M02.dispatch", vn(vsub(flt(q), flt(P))) / zs, 1e-13 * C.tol); }
}

VH_SUITE(m03) {
    Ctx C(r); Fix &F = F_;
    if (F.dimdoc) expect(M_->GetIntrDim() == F.dim, "M03.dim", "GetIntrDim()=%d, dimension %d", (int)M_->GetIntrDim(), F.dim);
    if (F.intr) {
        if (!F.pointIsProduct || F.name.find("Product") != 0) expect(M_->GetEMPTYINTR().Getlength() == F.dim, "M03.length", "intrinsic length %d, dimension %d", (int)M_->GetEMPTYINTR().Getlength(), F.dim);
        Vector v[2], w[2];
        for (int k = 0; k < 2; k++) {
            v[k] = F.tvs(r, C.x, sgn_scale(r)); w[k] = Vector(M_->GetEMPTYINTR());
            Guard g("M03.args", {&C.x, &v[k]}); M_->ObtainIntr(C.x, v[k], &w[k]); g.done("ObtainIntr");
            Guard g2("M03.args", {&C.x, &w[k]}); Vector b = r.b() ? Vector(M_->GetEMPTYEXTR()) : Vector(v[0]); M_->ObtainExtr(C.x, w[k], &b); g2.done("ObtainExtr");
            small("M03.extintrext", relv(flt(b), flt(v[k])), 1e-11 * C.tol, "vector -> coordinates -> vector"); obs("round trips");
        }
        if (F.name.find("Product") != 0) {
            double e = std::fabs(vdot(flt(w[0]), flt(w[1])) - F.met(C.x, v[0], v[1])) / (F.nm(C.x, v[0]) * F.nm(C.x, v[1]));
            small("M03.isometry", e, 1e-10 * C.tol, "inner product of coordinates");
            V c(F.dim); for (auto &t : c) t = r.n(); Vector ci = fromflat(M_->GetEMPTYINTR(), c), ex(M_->GetEMPTYEXTR()), back(M_->GetEMPTYINTR());
            M_->ObtainExtr(C.x, ci, &ex); small("M03.tangent", F.tang(C.x, ex), 1e-11 * C.tol, "coordinates give a tangent vector");
            M_->ObtainIntr(C.x, ex, &back); small("M03.intrextintr", relv(flt(back), c), 1e-10 * C.tol); obs("round trips");
            small("M03.norm", std::fabs(F.nm(C.x, ex) - vn(c)) / vn(c), 1e-10 * C.tol);
        }
    }
    if (F.normal) {
        int nd = M_->GetExtrDim() - M_->GetIntrDim(); int amb = (int)flt(M_->GetEMPTYEXTR()).size(); (void)amb;
        int total = M_->GetEMPTYEXTR().Getlength();
        expect(M_->GetExtrDim() == total, "M03.extrdim", "GetExtrDim()=%d, ambient dimension %d", (int)M_->GetExtrDim(), total);
        if (nd > 0) {
            V c(nd); for (auto &t : c) t = r.n(); Vector ci(nd); ci = fromflat(ci, c); Vector ex(M_->GetEMPTYEXTR()), back(nd);
            bool norfirst = r.b();
            if (norfirst && F.name.find("FixedRankE") == 0) { Vector a0 = F.amb(r, C.x), q(nd); M_->ObtainNorVerIntr(C.x, a0, &q); }
            M_->ObtainNorVerExtr(C.x, ci, &ex);
            Vector pr(M_->GetEMPTYEXTR()); M_->ExtrProjection(C.x, ex, &pr);
            small("M03.normal", vn(flt(pr)) / vn(c), 1e-11 * C.tol, "coordinates give a normal vector");
            small("M03.normaliso", std::fabs(vn(flt(ex)) - vn(c)) / vn(c), 1e-11 * C.tol);
            M_->ObtainNorVerIntr(C.x, ex, &back); small("M03.normalround", relv(flt(back), c), 1e-11 * C.tol);
            Vector t = F.tvs(r, C.x, 1.0); M_->ObtainNorVerIntr(C.x, t, &back); small("M03.normaltangent", vn(flt(back)) / vn(flt(t)), 1e-11 * C.tol, "tangent vector has no normal coordinates");
            Vector a = F.amb(r, C.x), pa(M_->GetEMPTYEXTR()), na(M_->GetEMPTYEXTR()); M_->ExtrProjection(C.x, a, &pa); M_->ObtainNorVerIntr(C.x, a, &back); M_->ObtainNorVerExtr(C.x, back, &na);
            V s = flt(pa), q = flt(na); for (size_t i = 0; i < s.size(); i++) s[i] += q[i]; small("M03.decompose", relv(s, flt(a)), 1e-11 * C.tol, "tangent + normal part = vector"); obs("normal-space round trips");
        }
    }
}

VH_SUITE(m04) {
    Ctx C(r); Fix &F = F_; const Variable &x = C.x;
    Vector e[3], w[3]; double n[3];
    for (int k = 0; k < 3; k++) { e[k] = F.tvs(r, x, sgn_scale(r)); w[k] = F.W(x, e[k]); n[k] = F.nm(x, e[k]); }
    Guard g("M04.args", {&x, &w[0], &w[1], &w[2]});
    auto Mt = [&](const Vector &a, const Vector &b) { obs("metric evaluations"); return M_->Metric(x, a, b); };
    double tm = 1e-11 * C.tol;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
        small("M04.value", std::fabs(Mt(w[i], w[j]) - F.met(x, e[i], e[j])) / (n[i] * n[j]), tm, "metric equals documented inner product");
        small("M04.symmetric", std::fabs(Mt(w[i], w[j]) - Mt(w[j], w[i])) / (n[i] * n[j]), tm);
    }
    expect(Mt(w[0], w[0]) > 0, "M04.positive", "norm^2 %g", Mt(w[0], w[0]));
    double a = r.n() * 3, b = r.n() * 0.4; if (r.b(0.1)) a = 0; if (r.b(0.1)) b = 0; if (r.b(0.1)) a = 1; if (r.b(0.1)) b = -1;
    Vector R1 = dirty(r, F, w[2]), R2 = dirty(r, F, w[2]), R3 = dirty(r, F, w[2]);
    M_->ScalarTimesVector(x, a, w[0], &R1); Vector ref1 = F.W(x, F.comb(x, a, e[0], 0, e[0]));
    M_->ScalarVectorAddVector(x, a, w[0], w[1], &R2); Vector ref2 = F.W(x, F.comb(x, a, e[0], 1, e[1]));
    M_->VectorLinearCombination(x, a, w[0], b, w[1], &R3); Vector ref3 = F.W(x, F.comb(x, a, e[0], b, e[1]));
    double s = std::max(vn(F.extdistinct(x, F.E(x, w[0]))), vn(F.extdistinct(x, F.E(x, w[1])))) * (1 + std::fabs(a) + std::fabs(b)); double tl = 1e-12 * C.tol;
    auto X = [&](const Vector &v) { return F.extdistinct(x, F.E(x, v)); };
    small("M04.scale", vn(vsub(X(R1), X(ref1))) / s, tl); small("M04.axpy", vn(vsub(X(R2), X(ref2))) / s, tl); small("M04.lincomb", vn(vsub(X(R3), X(ref3))) / s, tl);
    g.done("vector operations");
    small("M04.bilinear", std::fabs(Mt(R3, w[2]) - a * Mt(w[0], w[2]) - b * Mt(w[1], w[2])) / ((std::fabs(a) * n[0] + std::fabs(b) * n[1] + 1e-300) * n[2]), 10 * tm);
    // documented aliasing, and results sharing storage with arguments
    { Vector q(w[0]); M_->ScalarTimesVector(x, a, q, &q); small("M04.alias.scale", vn(vsub(X(q), X(ref1))) / s, tl); }
    { Vector q(w[1]); M_->ScalarVectorAddVector(x, a, w[0], q, &q); small("M04.alias.axpy", vn(vsub(X(q), X(ref2))) / s, tl); }
    { Vector q(w[1]); M_->VectorLinearCombination(x, a, w[0], b, q, &q); small("M04.alias.lincomb", vn(vsub(X(q), X(ref3))) / s, tl); }
    g.done("aliased vector operations");
    obs("vector operations", 6);
}

VH_SUITE(m05) {
    Ctx C(r); Fix &F = F_; const Variable &x = C.x;
    V z0 = F.emb(x); double zs = vn(z0);
    { Variable y(x); Vector w = F.W(x, F.extzero(x)); Guard g("M05.args", {&x, &w}); M_->Retraction(x, w, &y); g.done("Retraction"); small("M05.zero", relv(F.emb(y), z0), 1e-12 * C.tol, "R_x(0)=x"); obs("zero steps"); }
    Vector e = F.step(r, x, r.pickd({0.2, 1})); V d = F.demb(x, e); double dn = vn(d);
    if (dn > 0) {
        double h = 1e-4 * std::min(1.0, zs / dn), hl = F.limit(x, e); if (hl < 1e300) h = std::min(h, 1e-4 * hl * 2.5);
        auto at = [&](double t) { Variable y(x); M_->Retraction(x, F.W(x, F.comb(x, t, e, 0, e)), &y); obs("retractions"); return F.emb(y); };
        V a = at(h), b = at(-h), a2 = at(2 * h), b2 = at(-2 * h); V q(a.size()); for (size_t i = 0; i < q.size(); i++) q[i] = (8 * (a[i] - b[i]) - (a2[i] - b2[i])) / (12 * h);
        small("M05.firstorder", vn(vsub(q, d)) / dn, 1e-10 * C.tol * (1 + 1e-4 * zs / (h * dn)) , "d/dt R(tv) at 0 = v");
        obs("derivatives of retractions at 0");
    }
    for (double s : {0.05, 0.7, 2.5}) {
        Vector v = F.step(r, x, s), w = F.W(x, v); Variable y = r.b() ? Variable(x) : Variable(M_->GetEMPTYEXTR()); M_->Retraction(x, w, &y); double err; std::string what;
        if (F.closed(x, v, y, err, what)) { small("M05.closed", err, 1e-11 * C.tol, what.c_str()); obs("closed forms of retractions"); }
        if (F.expmap && F.geod(x, y) >= 0 && s < 3) { double n = F.nm(x, v); small("M05.explength", std::fabs(F.geod(x, y) - n) / n, 1e-9 * C.tol, "exponential moves by the length"); obs("exponential lengths"); }
        if (F.invretr && s < 1 && true) {
            Vector iv = F.M->GetEMPTY(); Guard g("M05.args", {&x, &y}); M_->InvRetraction(x, y, &iv); g.done("InvRetraction");
            small("M05.inverse", relv(flt(iv), flt(w)), 1e-9 * C.tol, "inverse retraction of R(v)"); obs("inverse retractions");
            Vector i0 = F.M->GetEMPTY(); M_->InvRetraction(x, x, &i0); small("M05.inversezero", vn(flt(i0)), 1e-9 * C.tol);
        }
        if (F.dist) {
            Guard g("M05.args", {&x, &y}); double d1 = M_->Dist(x, y), d2 = M_->Dist(y, x), d0 = M_->Dist(x, x); g.done("Dist");
            small("M05.distsym", std::fabs(d1 - d2) / std::max(d1, 1e-300), 1e-9 * C.tol); small("M05.distzero", d0, 1e-9 * C.tol); obs("distances", 3);
            if (F.geod(x, y) >= 0) small("M05.distvalue", std::fabs(d1 - F.geod(x, y)) / std::max(d1, F.geod(x, y)), 1e-9 * C.tol);
        }
    }
    if (F.dist) { double n = 1e-5; Vector v = F.tvs(r, x, n); double lm = F.limit(x, v); if (lm < 1e5) { v = F.comb(x, lm * 1e-5, v, 0, v); n = F.nm(x, v); } Variable y(x); M_->Retraction(x, F.W(x, v), &y); double t = M_->Dist(x, y); small("M05.distsmall", std::fabs(t - n) / n, 1e-3 + 1e-10 * C.tol / n, "distance of a small step"); }
}

static V dretr(Fix &F, const Variable &x, const Vector &w, const Vector &xi, double &scale, double &noise) {   // numerical derivative of emb(R(w + t xi))
    Manifold *M = F.M; V d = F.demb(x, xi); double dn = vn(d), zs = vn(F.emb(x)); double h = 1e-4 * std::min(1.0, zs / std::max(dn, 1e-300)); double hl = F.limit(x, xi); if (hl < 1e300) h = std::min(h, 2.5e-4 * hl); scale = dn;
    Variable xc(x);   // a retraction may leave data at its base point
    auto at = [&](double t) { Variable y(x); M->Retraction(xc, F.W(x, F.comb(x, 1, w, t, xi)), &y); return F.emb(y); };
    V a = at(h), b = at(-h), a2 = at(2 * h), b2 = at(-2 * h); V q(a.size()); for (size_t i = 0; i < q.size(); i++) q[i] = (8 * (a[i] - b[i]) - (a2[i] - b2[i])) / (12 * h);
    scale = std::max(dn, 1e-300); noise = 1e-14 * zs / (h * std::max(scale, vn(q))); return q;
}
VH_SUITE(m06) {
    Ctx C(r); Fix &F = F_; const Variable &x = C.x;
    if (!F.diffSame && !F.diffGen) { obs("no differentiated retraction offered"); return; }
    double s = r.pickd({0.01, 0.3, 1.0}); if (r.b(0.1)) s = 0; else if (r.b(0.04)) s = 1e-17;   // below the unit roundoff
    Vector e = s > 0 ? F.step(r, x, s) : F.extzero(x), w = F.W(x, e); Variable y(x); M_->Retraction(x, w, &y);
    double nl = 1e-7 * C.tol;
    if (s == 0 && F.diffSame && !F.hhr) { Vector d = dirty(r, F, w); M_->DiffRetraction(x, w, y, w, &d, true); double t = vn(flt(F.E(y, d))); expect(t <= 1e-13, "M06.zero", "derivative along a zero step has norm %g", t); obs("zero-step derivatives"); }
    for (int k = 0; k < 2; k++) {
        bool same = k == 1; if (!same && !F.diffGen) continue; if (same && (s == 0 || !F.diffSame)) continue;
        double c = r.pickd({1, 0.3, 4}); Vector xi = same ? F.comb(x, c, e, 0, e) : F.tvs(r, x, r.pickd({0.1, 1})), wx = F.W(x, xi);
        Vector d = dirty(r, F, wx); Guard g("M06.args", {&x, &w, &y, &wx}); M_->DiffRetraction(x, w, y, wx, &d, same); g.done("DiffRetraction");
        Vector de = F.E(y, d); double dn, noise; V num = dretr(F, x, e, xi, dn, noise);
        small("M06.tangent", F.tang(y, de), 1e-10 * C.tol, "image is tangent at y");
        small(same ? "M06.same" : "M06.derivative", vn(vsub(F.demb(y, de), num)) / std::max(dn, vn(num)), nl + noise, same ? "derivative along the step" : "derivative along another direction");
        obs(same ? "derivatives along the step" : "derivatives along other directions");
        Vector al(wx); M_->DiffRetraction(x, w, y, al, &al, same); small("M06.alias", relv(F.extdistinct(y, F.E(y, al)), F.extdistinct(y, de)), 1e-12 * C.tol);
        if (same && F.hhr) {
            double be = M_->Beta(x, w); Vector d1(M_->GetEMPTY()); V dd = F.demb(y, F.comb(y, 1 / c, de, 0, de)); double rt = F.nm(x, e) / F.nm(y, F.comb(y, 1 / c, de, 0, de)); (void)d1; (void)dd;
            if (rt < 1e4) small("M06.beta", std::fabs(be - rt) / rt, 1e-9 * C.tol, "beta = |w| / |DR(w)[w]|"); obs("scale factors");
        }
    }
    if (!F.hhr) { double be = M_->Beta(x, w); expect(be == 1, "M06.beta", "beta without locking is %g", be); }
    if (F.cotan && F.diffGen) {
        Vector xi = F.tvs(r, x, 1.0), wx = F.W(x, xi), zy = F.W(y, F.tvs(r, y, 1.0)); Vector d(M_->GetEMPTY()), ct = dirty(r, F, zy);
        M_->DiffRetraction(x, w, y, wx, &d, false); Guard g("M06.args", {&x, &w, &y, &zy}); M_->coTangentVector(x, w, y, zy, &ct); g.done("coTangentVector");
        double l = F.met(y, F.E(y, zy), F.E(y, d)), q = F.met(x, F.E(x, ct), xi); small("M06.adjoint", std::fabs(l - q) / std::max(1.0, std::fabs(l)), 1e-10 * C.tol, "cotangent operator is the adjoint"); obs("adjoint pairs");
        Vector al(zy); M_->coTangentVector(x, w, y, al, &al); small("M06.coalias", relv(flt(al), flt(ct)), 1e-12 * C.tol);
    }
}

// the locking construction needs a step whose differentiated retraction does not vanish
static bool lcsingular(Fix &F, const Variable &x, const Vector &e, const Variable &y) {
    if (!F.hhr) return false;
    double n = F.nm(x, e); if (n == 0) return false;
    Variable xc(x), yc(y); Vector w = F.W(x, e); Vector d(F.M->GetEMPTY());
    F.M->DiffRetraction(xc, w, yc, w, &d, true); double q = F.nm(y, F.E(y, d)) / n; return !(q > 1e-4 && q < 1e4);
}
VH_SUITE(m07) {
    Ctx C(r); Fix &F = F_; const Variable &x = C.x;
    bool zero = r.b(0.12);
    Vector e = zero ? F.extzero(x) : F.step(r, x, r.b(0.04) ? 1e-17 : r.pickd({1e-3, 0.1, 0.6, 1.5})), w = F.W(x, e); Variable y(x); M_->Retraction(x, w, &y); if (lcsingular(F, x, e, y)) { obs("steps with vanishing derivative skipped"); return; }
    double tl = 1e-10 * C.tol;
    if (r.b() && F.diffSame && !zero) { Vector d(M_->GetEMPTY()); M_->DiffRetraction(x, w, y, w, &d, true); }
    auto T = [&](const Vector &v) { Vector o = dirty(r, F, v); Guard g("M07.args", {&x, &w, &y, &v}); M_->VectorTransport(x, w, y, v, &o); g.done("VectorTransport"); obs("transports"); return o; };
    Vector v[2], tv[2], ev[2];
    for (int k = 0; k < 2; k++) { ev[k] = F.tvs(r, x, r.pickd({1e-3, 1.0})); v[k] = F.W(x, ev[k]); tv[k] = T(v[k]); small("M07.tangent", F.tang(y, F.E(y, tv[k])), tl, "transported vector is tangent at y"); }
    double a = r.n(), b = r.n(); Vector L = T(F.W(x, F.comb(x, a, ev[0], b, ev[1]))); Vector Lr = F.W(y, F.comb(y, a, F.E(y, tv[0]), b, F.E(y, tv[1])));
    double ls = vn(flt(F.E(y, tv[0]))) * std::fabs(a) + vn(flt(F.E(y, tv[1]))) * std::fabs(b);
    if (F.linVT) small("M07.linear", vn(vsub(flt(F.E(y, L)), flt(F.E(y, Lr)))) / ls, tl);
    if (F.isoVT || F.normVT) {
        double n0 = F.nm(x, ev[0]), n1 = F.nm(x, ev[1]);
        if (F.isoVT) small("M07.isometric", std::fabs(F.met(y, F.E(y, tv[0]), F.E(y, tv[1])) - F.met(x, ev[0], ev[1])) / (n0 * n1), tl, "inner product preserved");
        small("M07.isometric", std::fabs(F.nm(y, F.E(y, tv[0])) - n0) / n0, tl, "norm preserved"); obs("isometry checks", 2);
    }
    { Vector al(v[0]); M_->VectorTransport(x, w, y, al, &al); small("M07.alias", relv(F.extdistinct(y, F.E(y, al)), F.extdistinct(y, F.E(y, tv[0]))), 1e-12 * C.tol); }
    if (F.invVT) {
        Vector b0 = dirty(r, F, tv[0]); Guard g("M07.args", {&x, &w, &y, &tv[0]}); M_->InverseVectorTransport(x, w, y, tv[0], &b0); g.done("InverseVectorTransport");
        small("M07.inverse", relv(flt(F.E(x, b0)), flt(ev[0])), tl, "inverse transport undoes the transport");
        Vector zy = F.tvs(r, y, 1.0), zi(M_->GetEMPTY()); M_->InverseVectorTransport(x, w, y, F.W(y, zy), &zi); small("M07.invtangent", F.tang(x, F.E(x, zi)), tl);
        Vector tz = T(zi); small("M07.inverse2", relv(flt(F.E(y, tz)), flt(zy)), tl, "transport undoes the inverse transport"); obs("inverse transports", 2);
        Vector al = F.W(y, zy); M_->InverseVectorTransport(x, w, y, al, &al); small("M07.invalias", relv(flt(F.E(x, al)), flt(F.E(x, zi))), 1e-12 * C.tol);
    }
    if (F.hhr && F.diffSame && !zero) {
        Vector d(M_->GetEMPTY()); M_->DiffRetraction(x, w, y, w, &d, true); double be = M_->Beta(x, w); Vector tw = T(w);
        Vector de = F.E(y, d); V q = flt(de); for (auto &t : q) t *= be; small("M07.locking", relv(flt(F.E(y, tw)), q), tl, "T(step) = beta DR(step)[step]"); obs("locking checks");
    }
    if (zero) { for (int k = 0; k < 2; k++) small("M07.zerostep", relv(F.demb(y, F.E(y, tv[k])), F.demb(x, ev[k])), tl, "zero step transports a vector to itself"); obs("zero steps"); }
    { Vector z0 = F.W(x, F.extzero(x)), t0(M_->GetEMPTY()); M_->VectorTransport(x, w, y, z0, &t0); small("M07.zerovector", vn(flt(t0)), 1e-13, "zero vector stays zero"); }
}

static LinearOPE randH(Rng &r, int L) { LinearOPE H(L, L); double *p = H.ObtainWriteEntireData(); for (int i = 0; i < L * L; i++) p[i] = r.n(); return H; }
static V apply(const V &H, int L, const V &v) { V o(L, 0.0); for (int j = 0; j < L; j++) for (int i = 0; i < L; i++) o[i] += H[(size_t)j * L + i] * v[j]; return o; }
VH_SUITE(m08) {
    Ctx C(r); Fix &F = F_; const Variable &x = C.x;
    Vector e = F.step(r, x, r.pickd({1e-3, 0.1, 0.6})), w = F.W(x, e); int L = w.Getlength(); Variable y(x); M_->Retraction(x, w, &y); double tl = 1e-10 * C.tol; if (lcsingular(F, x, e, y)) { obs("steps with vanishing derivative skipped"); return; }
    bool ext = !M_->GetIsIntrinsic();
    // operators mapping tangent space to tangent space: for extrinsic representations sum of (tangent) (anything)^T
    auto mkH = [&](const Variable &p) { LinearOPE H = randH(r, L); if (ext || F.pointIsProduct) { V h((size_t)L * L, 0.0); for (int k = 0; k < 3; k++) { V u = flt(F.W(p, F.tvs(r, p, 1.0))), q = flt(F.W(p, F.tvs(r, p, 1.0))); for (int j = 0; j < L; j++) for (int i = 0; i < L; i++) h[(size_t)j * L + i] += u[i] * q[j]; } H = fromflat(H, h); } return H; };
    LinearOPE H = mkH(x); V hv = flt(H); double hn = vn(hv);
    {
        Vector o = dirty(r, F, w); Guard g("M08.args", {&x, &H, &w}); M_->LinearOPEEta(x, H, w, &o); g.done("LinearOPEEta");
        small("M08.apply", vn(vsub(flt(o), apply(hv, L, flt(w)))) / (hn * vn(flt(w))), 1e-12 * C.tol, "H eta"); expect(o.Getiscomplex() == w.Getiscomplex() && o.Getrow() == w.Getrow() && o.Getcol() == w.Getcol(), "M08.applyshape", "shape of H eta"); obs("operator actions");
        if (F.name.find("FixedRankE") == 0) { Vector p(M_->GetEMPTY()); M_->ExtrProjection(x, o, &p); small("M08.applyfactors", relv(F.extdistinct(x, o), F.extdistinct(x, p)), 1e-9 * C.tol, "factors of H eta"); }
    }
    {   // rank-one update
        Vector a = F.W(x, F.tvs(r, x, 1.0)), b = F.W(x, F.tvs(r, x, 1.0)), c = F.W(x, F.tvs(r, x, 1.0)); double s = r.n(); LinearOPE R = r.b() ? LinearOPE(L, L) : LinearOPE(H); Guard g("M08.args", {&x, &H, &a, &b}); M_->HaddScaledRank1OPE(x, H, s, a, b, &R); g.done("HaddScaledRank1OPE");
        V q = apply(flt(R), L, flt(c)), ref = apply(hv, L, flt(c)); double ip = F.met(x, F.E(x, b), F.E(x, c)); V av = flt(a); for (int i = 0; i < L; i++) ref[i] += s * ip * av[i];
        small("M08.rank1", vn(vsub(q, ref)) / (hn * vn(flt(c)) + vn(av)), 1e-11 * C.tol, "(H + s a b*) c"); obs("rank-one updates");
        LinearOPE A(H); M_->HaddScaledRank1OPE(x, A, s, a, b, &A); small("M08.rank1alias", relv(flt(A), flt(R)), 1e-12 * C.tol);
        Vector fb = dirty(r, F, b), cc = c; M_->ObtainEtaxFlat(x, b, &fb); small("M08.flat", std::fabs(vdot(flt(fb), flt(c)) - ip) / 1.0, 1e-11 * C.tol, "flat"); Vector al(b); M_->ObtainEtaxFlat(x, al, &al); small("M08.flatalias", relv(flt(al), flt(fb)), 1e-13 * C.tol);
    }
    if (!F.tranH) { obs("no operator transport offered"); return; }
    if (r.b() && F.diffSame) { Vector d(M_->GetEMPTY()); M_->DiffRetraction(x, w, y, w, &d, true); }
    LinearOPE R = r.b() ? LinearOPE(L, L) : LinearOPE(H);
    { Guard g("M08.args", {&x, &w, &y, &H}); M_->TranHInvTran(x, w, y, H, &R); g.done("TranHInvTran"); }
    for (int k = 0; k < 2; k++) {
        Vector zy = F.W(y, F.tvs(r, y, 1.0)), zx(M_->GetEMPTY()); M_->InverseVectorTransport(x, w, y, zy, &zx); Vector hz = fromflat(zx, apply(hv, L, flt(zx))), t(M_->GetEMPTY()); M_->VectorTransport(x, w, y, hz, &t);
        small("M08.TranHInvTran", vn(vsub(apply(flt(R), L, flt(zy)), flt(t))) / (hn * vn(flt(zy))), tl, "T H T^-1"); obs("operator transports");
    }
    LinearOPE A(H); M_->TranHInvTran(x, w, y, A, &A); small("M08.TranHInvTranalias", relv(flt(A), flt(R)), 1e-12 * C.tol);
    // one-sided transports on column and row ranges: blocks of length |w| inside a larger operator
    if (F.name.find("Product") == 0) return;
    int pre = r.i(0, 2), post = r.i(0, 2), N = pre + L + post; LinearOPE B = randH(r, N); V bv = flt(B);
    if (ext) for (int j = 0; j < N; j++) { V u = flt(F.W(x, F.tvs(r, x, 1.0))); for (int i = 0; i < L; i++) bv[(size_t)j * N + pre + i] = u[i]; } B = fromflat(B, bv);
    LinearOPE R1 = r.b() ? LinearOPE(N, N) : LinearOPE(B), R2 = r.b() ? LinearOPE(N, N) : LinearOPE(B);
    { Guard g("M08.args", {&x, &w, &y, &B}); M_->HInvTran(x, w, y, B, pre, pre + L, &R1); M_->TranH(x, w, y, B, pre, pre + L, &R2); g.done("HInvTran/TranH"); }
    V r1 = flt(R1), r2 = flt(R2); bool keep = r1.size() == bv.size() && r2.size() == bv.size();
    if (!expect(keep, "M08.onesidedshape", "size of one-sided transport")) return;
    for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) { bool inc = j >= pre && j < pre + L, inr = i >= pre && i < pre + L; size_t q = (size_t)j * N + i; if (!inc && r1[q] != bv[q]) keep = false; if (!inr && r2[q] != bv[q]) keep = false; }
    expect(keep, "M08.otherblocks", "entries outside the transported block changed");
    Vector zy = F.W(y, F.tvs(r, y, 1.0)), zx(M_->GetEMPTY()); M_->InverseVectorTransport(x, w, y, zy, &zx); V a1(N, 0.0), a0(N, 0.0), q = flt(zy), q0 = flt(zx);
    for (int j = 0; j < L; j++) for (int i = 0; i < N; i++) { a1[i] += r1[(size_t)(pre + j) * N + i] * q[j]; a0[i] += bv[(size_t)(pre + j) * N + i] * q0[j]; }
    small("M08.HInvTran", vn(vsub(a1, a0)) / (vn(bv) * vn(q)), tl, "H T^-1 on column block");
    double wd = 0; for (int j = 0; j < N; j++) { V cv(bv.begin() + (size_t)j * N + pre, bv.begin() + (size_t)j * N + pre + L), c1(r2.begin() + (size_t)j * N + pre, r2.begin() + (size_t)j * N + pre + L); Vector t(M_->GetEMPTY()), cw = fromflat(w, cv); if (w.Getnumofelements() == 0) { } M_->VectorTransport(x, w, y, cw, &t); wd = std::max(wd, vn(vsub(c1, flt(t))) / std::max(vn(cv), 1e-300)); }
    small("M08.TranH", wd, tl, "T H on row block"); obs("one-sided transports", 2);
}

VH_SUITE(m10) {
    Ctx C(r); Fix &F = F_; const Variable &x = C.x;
    if (F.name.find("SphereTx") == 0) { Variable u = x; Vector a = F.amb(r, x); if (std::fabs(F.met(x, a, a) - vdot(flt(a), flt(a))) > 1e-9 * vdot(flt(a), flt(a))) { obs("inner metric is not the dot product"); return; } }
    TestProblem P(r, &F, x); double tl = 1e-10 * C.tol;
    V z = F.emb(x), gz = P.G(z);
    Vector g = dirty(r, F, F.W(x, F.tv(r, x))); { Guard gd("M10.args", {&x}); P.Grad(x, &g); gd.done("Grad"); }
    Vector ge = F.E(x, g); double gn = F.nm(x, ge);
    small("M10.tangent", F.tang(x, ge), tl, "gradient is tangent");
    Vector ev[3]; double n[3];
    for (int k = 0; k < 3; k++) {
        ev[k] = F.tvs(r, x, 1.0); n[k] = F.nm(x, ev[k]); double df = vdot(gz, F.demb(x, ev[k]));
        small("M10.gradient", std::fabs(F.met(x, ge, ev[k]) - df) / (std::fabs(vn(gz) * vn(F.demb(x, ev[k]))) + gn), tl, "<grad f, v> = Df[v]"); obs("directional derivatives");
    }
    if (F.name.find("FixedRankE") == 0 && r.b()) { }
    Vector h[3]; double hs = 0;
    for (int k = 0; k < 3; k++) { Vector w = F.W(x, ev[k]); h[k] = dirty(r, F, w); Guard gd("M10.args", {&x, &w}); P.HessianEta(x, w, &h[k]); gd.done("HessianEta"); h[k] = F.E(x, h[k]); small("M10.hesstangent", F.tang(x, h[k]), tl * 10, "Hessian action is tangent"); hs = std::max(hs, F.nm(x, h[k])); obs("Hessian actions"); }
    hs += vn(gz) * vn(F.demb(x, ev[0])) + 1e-300;
    double a = r.n(), b = r.n(); Vector wl = F.W(x, F.comb(x, a, ev[0], b, ev[1])), hl(M_->GetEMPTY()); P.HessianEta(x, wl, &hl); V ref = flt(F.comb(x, a, h[0], b, h[1]));
    small("M10.hesslinear", vn(vsub(flt(F.E(x, hl)), ref)) / std::max(vn(ref), vn(flt(h[0]))), tl * 10);
    for (int i = 0; i < 3; i++) for (int j = i; j < 3; j++) {
        double l = F.met(x, h[i], ev[j]), q = F.met(x, ev[i], h[j]); small("M10.hesssym", std::fabs(l - q) / hs, tl, "Hessian symmetric in the metric");
        double ex = vdot(P.HV(z, F.demb(x, ev[i])), F.demb(x, ev[j])) + F.hcorr(x, ev[i], ev[j], gz, ge);
        small("M10.hessvalue", std::fabs(l - ex) / hs, 1e-9 * C.tol, "Hessian equals second covariant derivative"); obs("Hessian form values");
    }
    // second call and other order give the same values
    Vector g2(M_->GetEMPTY()); P.Grad(x, &g2); small("M10.repeat", relv(flt(g2), flt(g)), 1e-12 * C.tol);
    // a point without attached data
}

// ---------------------------------------------------------------- products act component by component
namespace {
struct DummyProb : public Problem { DummyProb(bool h) { UseGrad = true; UseHess = h; } realdp f(const Variable &) const { return 0; } };
}
VH_SUITE(m09) {
    // component types, shared by two products listing them in different order / grouping
    bool lock = r.b(0.35);   // components under the locking condition: their transports depend on the step
    int k = r.i(1, 3); std::vector<FP> T; std::vector<Manifold *> A; std::vector<integer> pw(1, 0); std::vector<int> ty; std::string nm;
    for (int i = 0; i < k; i++) { T.push_back(mkfix(r, F_NOPROD | F_NOTX | (lock ? 0 : F_NOHHR) | F_NOFRE | 128)); A.push_back(T[i]->M); int m = r.i(1, 3); for (int j = 0; j < m; j++) ty.push_back(i); pw.push_back((integer)ty.size()); nm += (i ? "," : "") + T[i]->name; }
    int nc = (int)ty.size(); config("Product(%s)", nm.c_str()); detail("%d components", nc); sig(nm + std::to_string(nc)); obs("configurations");
    std::vector<std::pair<bool, bool>> flags; for (auto &t : T) flags.push_back({t->M->GetIsIntrinsic(), t->M->GetHasHHR()});
    // second product: one entry per component, shuffled
    std::vector<int> perm(nc); for (int j = 0; j < nc; j++) perm[j] = j; for (int j = nc - 1; j > 0; j--) std::swap(perm[j], perm[r.i(0, j)]);
    std::vector<Manifold *> B; std::vector<integer> pwB(1, 0); for (int j = 0; j < nc; j++) { B.push_back(T[ty[perm[j]]]->M); pwB.push_back(j + 1); }
    std::unique_ptr<Manifold> P, Q(new MultiManifolds(B.data(), nc, pwB.data()));
    int form = r.i(0, 1); auto mult = [&](int i) { return (integer)(pw[i + 1] - pw[i]); };
    if (form == 0) P.reset(new MultiManifolds(A.data(), k, pw.data()));
    else if (k == 1) P.reset(new ProductManifold(1, A[0], mult(0)));
    else if (k == 2) P.reset(new ProductManifold(2, A[0], mult(0), A[1], mult(1)));
    else P.reset(new ProductManifold(3, A[0], mult(0), A[1], mult(1), A[2], mult(2)));
    bool ext = r.b(0.12); if (ext) { P->SetIsIntrApproach(false); Q->SetIsIntrApproach(false); }
    auto CM = [&](int j) { return T[ty[j]]->M; };
    auto pack = [&](Manifold *M, const std::vector<Element> &c, bool vec, bool permd) {
        Element e(vec && M->GetIsIntrinsic() ? M->GetEMPTYINTR() : M->GetEMPTYEXTR()); e.NewMemoryOnWrite(); for (int j = 0; j < nc; j++) e.GetElement(j) = c[permd ? perm[j] : j]; return e; };
    auto all = [&](const std::vector<Element> &c) { V v; for (auto &e : c) { V w = flt(e); v.insert(v.end(), w.begin(), w.end()); } return v; };
    std::vector<Element> x, w, v, y, E, W2, w2, v2; double cond = 1;
    for (int j = 0; j < nc; j++) {
        Fix &F = *T[ty[j]]; double c; Variable xj = F.pt(r, c); cond = std::max(cond, c); Vector e = F.step(r, xj, r.pickd({0.01, 0.3, 0.8})), u = F.tvs(r, xj, 1.0), z = F.amb(r, xj), z2 = F.amb(r, xj); if (F.name.find("SPD") == 0) { z = el(sym(of(z))); z2 = el(sym(of(z2))); }
        x.push_back(fromflat(xj, flt(xj))); E.push_back(z); W2.push_back(z2);
        if (ext) { w.push_back(e); v.push_back(u); } else { w.push_back(F.W(xj, e)); v.push_back(F.W(xj, u)); }
        w[j] = fromflat(w[j], flt(w[j])); v[j] = fromflat(v[j], flt(v[j])); 
    }
    double tl = 1e-12 * std::max(10.0, std::min(1e5, cond * cond));
    Element px = pack(P.get(), x, false, false), pw_ = pack(P.get(), w, true, false), pv = pack(P.get(), v, true, false), pE = pack(P.get(), E, false, false);
    Element qx = pack(Q.get(), x, false, true), qw = pack(Q.get(), w, true, true), qv = pack(Q.get(), v, true, true), qE = pack(Q.get(), E, false, true);
    auto cmp = [&](const char *what, const Element &p, const Element &q, const std::vector<Element> &c) {
        bool ok = p.Getnumofelements() == nc && q.Getnumofelements() == nc; if (!expect(ok, "M09.shape", "%s: number of components %d/%d, expected %d", what, (int)p.Getnumofelements(), (int)q.Getnumofelements(), nc)) return;
        for (int j = 0; j < nc; j++) {
            small("M09.component", relv(flt(p.GetElement(j)), flt(c[j]), vn(flt(c[j])) + 1e-14), tl, what); small("M09.permuted", relv(flt(q.GetElement(j)), flt(c[perm[j]]), vn(flt(c[perm[j]])) + 1e-14), tl, what);
            expect(p.GetElement(j).Getrow() == c[j].Getrow() && p.GetElement(j).Getcol() == c[j].Getcol() && p.GetElement(j).Getiscomplex() == c[j].Getiscomplex(), "M09.componentshape", "%s: component %d", what, j);
        }
        V lin = flt(p), ref = all(c); small("M09.layout", relv(lin, ref, vn(ref) + 1e-14), tl, what); obs("component-wise comparisons", 2 * nc);
    };
    auto fresh = [&](Manifold *M, bool vec, const Element &like) { return r.b() ? Element(vec && M->GetIsIntrinsic() ? M->GetEMPTYINTR() : M->GetEMPTYEXTR()) : Element(like); };
    Guard g("M09.args", {&px, &pw_, &pv, &pE, &qx, &qw, &qv});
    // the result may be stored over the last argument, whether or not its memory is shared with another element
    auto over = [&](const char *what, const Element &arg, const Element &ref, const std::function<void(Element &)> &f) {
        if (!r.b(0.5)) return; Element a(arg), keep(arg); bool sh = r.b(); if (!sh) a = fromflat(arg, flt(arg)); else keep = a; V before = flt(keep); f(a); V rf = flt(ref);
        small("M09.inplace", relv(flt(a), rf, vn(rf) + 1e-14), tl, what); expect(flt(keep) == before, "M09.inplaceargs", "%s: another element sharing the argument's memory changed", what); obs("in-place operations"); };
    auto withext = [&](int j, const std::function<void()> &f) { bool o = CM(j)->GetIsIntrinsic(); if (ext) CM(j)->SetIsIntrApproach(false); f(); CM(j)->SetIsIntrApproach(o); };
    // dimensions
    { int di = 0, de = 0; for (int j = 0; j < nc; j++) { di += CM(j)->GetIntrDim(); de += CM(j)->GetExtrDim(); } expect(P->GetIntrDim() == di && Q->GetIntrDim() == di && P->GetExtrDim() == de && Q->GetExtrDim() == de, "M09.dim", "intrinsic %d extrinsic %d, components %d %d", (int)P->GetIntrDim(), (int)P->GetExtrDim(), di, de); }
    // retraction
    Element py = fresh(P.get(), false, px), qy = fresh(Q.get(), false, qx);   // later operations need the data the retraction leaves at y
    { Element &rp = py, &rq = qy; P->Retraction(px, pw_, &rp); Q->Retraction(qx, qw, &rq); for (int j = 0; j < nc; j++) withext(j, [&] { Variable o(x[j]); CM(j)->Retraction(x[j], w[j], &o); y.push_back(o); }); cmp("retraction", rp, rq, y); }
    bool invr = true, dist = true, inv = true, dg = true, cot = true; for (int j = 0; j < nc; j++) { Fix &F = *T[ty[j]]; invr &= F.invretr; dist &= F.dist; inv &= F.invVT; dg &= F.diffGen; cot &= F.cotan; }
    auto each = [&](const std::function<void(int, Element *)> &f, bool vec) { std::vector<Element> o; for (int j = 0; j < nc; j++) { Element t(vec && !ext ? CM(j)->GetEMPTY() : CM(j)->GetEMPTYEXTR()); withext(j, [&] { f(j, &t); }); o.push_back(t); } return o; };
    if (invr) { Element rp = fresh(P.get(), true, pw_), rq = fresh(Q.get(), true, qw); P->InvRetraction(px, py, &rp); Q->InvRetraction(qx, qy, &rq); cmp("inverse retraction", rp, rq, each([&](int j, Element *o) { CM(j)->InvRetraction(x[j], y[j], o); }, true)); }
    { Element rp = fresh(P.get(), false, pE), rq = fresh(Q.get(), false, qE); P->ExtrProjection(px, pE, &rp); Q->ExtrProjection(qx, qE, &rq); cmp("extrinsic projection", rp, rq, each([&](int j, Element *o) { CM(j)->ExtrProjection(x[j], E[j], o); }, false)); }
    if (ext) { Element rp = fresh(P.get(), true, pE), rq = fresh(Q.get(), true, qE); P->Projection(px, pE, &rp); Q->Projection(qx, qE, &rq); cmp("projection (extrinsic mode)", rp, rq, each([&](int j, Element *o) { CM(j)->ExtrProjection(x[j], E[j], o); }, false)); }
    else {
        Element rp = fresh(P.get(), true, pw_), rq = fresh(Q.get(), true, qw); P->Projection(px, pv, &rp); Q->Projection(qx, qv, &rq); cmp("projection", rp, rq, each([&](int j, Element *o) { CM(j)->Projection(x[j], v[j], o); }, true));
        over("projection", pv, rp, [&](Element &a_) { P->Projection(px, a_, &a_); });
        // metric, arithmetic
        double m = 0, nn = 0; for (int j = 0; j < nc; j++) { m += CM(j)->Metric(x[j], w[j], v[j]); nn += std::sqrt(std::fabs(CM(j)->Metric(x[j], w[j], w[j]) * CM(j)->Metric(x[j], v[j], v[j]))); }
        small("M09.metric", std::fabs(P->Metric(px, pw_, pv) - m) / nn, tl); small("M09.metric", std::fabs(Q->Metric(qx, qw, qv) - m) / nn, tl); obs("metric sums", 2);
        double a = r.n(), b = r.n(); Element sp = fresh(P.get(), true, pw_), sq = fresh(Q.get(), true, qw); P->VectorLinearCombination(px, a, pw_, b, pv, &sp); Q->VectorLinearCombination(qx, a, qw, b, qv, &sq); cmp("linear combination", sp, sq, each([&](int j, Element *o) { CM(j)->VectorLinearCombination(x[j], a, w[j], b, v[j], o); }, true));
        P->ScalarTimesVector(px, a, pw_, &sp); Q->ScalarTimesVector(qx, a, qw, &sq); cmp("scaling", sp, sq, each([&](int j, Element *o) { CM(j)->ScalarTimesVector(x[j], a, w[j], o); }, true));
        P->ScalarVectorAddVector(px, a, pw_, pv, &sp); Q->ScalarVectorAddVector(qx, a, qw, qv, &sq); cmp("axpy", sp, sq, each([&](int j, Element *o) { CM(j)->ScalarVectorAddVector(x[j], a, w[j], v[j], o); }, true));
        if (dist) { double d = 0; for (int j = 0; j < nc; j++) { double t = CM(j)->Dist(x[j], y[j]); d += t * t; } d = std::sqrt(d); small("M09.dist", std::fabs(P->Dist(px, py) - d) / d, tl); small("M09.dist", std::fabs(Q->Dist(qx, qy) - d) / d, tl); obs("distances", 2); }
        // coordinates
        std::vector<Element> ex = each([&](int j, Element *o) { if (CM(j)->GetIsIntrinsic()) { Element t(CM(j)->GetEMPTYEXTR()); CM(j)->ObtainExtr(x[j], v[j], &t); *o = t; } else *o = v[j]; }, false);
        Element xp = fresh(P.get(), false, pE), xq = fresh(Q.get(), false, qE); P->ObtainExtr(px, pv, &xp); Q->ObtainExtr(qx, qv, &xq); cmp("ObtainExtr", xp, xq, ex);
        for (auto &e : ex) e = fromflat(e, flt(e));
        Element ep = pack(P.get(), ex, false, false), eq = pack(Q.get(), ex, false, true), ip = fresh(P.get(), true, pw_), iq = fresh(Q.get(), true, qw); P->ObtainIntr(px, ep, &ip); Q->ObtainIntr(qx, eq, &iq); cmp("ObtainIntr", ip, iq, each([&](int j, Element *o) { if (CM(j)->GetIsIntrinsic()) CM(j)->ObtainIntr(x[j], ex[j], o); else *o = ex[j]; }, true));
        // derivatives
        bool same = r.b(); if (same || dg) {
            bool okd = true; for (int j = 0; j < nc; j++) okd &= same ? T[ty[j]]->diffSame : T[ty[j]]->diffGen;
            if (okd) { auto xi = [&](int j) { return same ? w[j] : v[j]; }; Element rp = fresh(P.get(), true, pw_), rq = fresh(Q.get(), true, qw); P->DiffRetraction(px, pw_, py, same ? pw_ : pv, &rp, same); Q->DiffRetraction(qx, qw, qy, same ? qw : qv, &rq, same); cmp("differentiated retraction", rp, rq, each([&](int j, Element *o) { CM(j)->DiffRetraction(x[j], w[j], y[j], xi(j), o, same); }, true));
                over("differentiated retraction", same ? pw_ : pv, rp, [&](Element &a_) { P->DiffRetraction(px, pw_, py, a_, &a_, same); }); } }
        std::vector<Element> vy; for (int j = 0; j < nc; j++) { Fix &F = *T[ty[j]]; Vector u = F.W(y[j], F.tvs(r, y[j], 1.0)); vy.push_back(fromflat(u, flt(u))); } Element pvy = pack(P.get(), vy, true, false), qvy = pack(Q.get(), vy, true, true);
        if (cot) { Element rp = fresh(P.get(), true, pw_), rq = fresh(Q.get(), true, qw); P->coTangentVector(px, pw_, py, pvy, &rp); Q->coTangentVector(qx, qw, qy, qvy, &rq); cmp("cotangent", rp, rq, each([&](int j, Element *o) { CM(j)->coTangentVector(x[j], w[j], y[j], vy[j], o); }, true)); over("cotangent", pvy, rp, [&](Element &a_) { P->coTangentVector(px, pw_, py, a_, &a_); }); }
        { Element rp = fresh(P.get(), true, pw_), rq = fresh(Q.get(), true, qw); P->VectorTransport(px, pw_, py, pv, &rp); Q->VectorTransport(qx, qw, qy, qv, &rq); cmp("vector transport", rp, rq, each([&](int j, Element *o) { CM(j)->VectorTransport(x[j], w[j], y[j], v[j], o); }, true)); over("vector transport", pv, rp, [&](Element &a_) { P->VectorTransport(px, pw_, py, a_, &a_); }); if (lock) obs("transports with locking components"); }
        if (inv) { Element rp = fresh(P.get(), true, pw_), rq = fresh(Q.get(), true, qw); P->InverseVectorTransport(px, pw_, py, pvy, &rp); Q->InverseVectorTransport(qx, qw, qy, qvy, &rq); cmp("inverse transport", rp, rq, each([&](int j, Element *o) { CM(j)->InverseVectorTransport(x[j], w[j], y[j], vy[j], o); }, true)); over("inverse transport", pvy, rp, [&](Element &a_) { P->InverseVectorTransport(px, pw_, py, a_, &a_); }); }
        // block-diagonal operator: blocks transported by their own components
        bool th = true; for (int j = 0; j < nc; j++) th &= T[ty[j]]->tranH;
        if (th) {
            int L = pw_.Getlength(); std::vector<V> blk_; LinearOPE H(L, L); { V h((size_t)L * L, 0.0); int o = 0; for (int j = 0; j < nc; j++) { int l = w[j].Getlength(); V b((size_t)l * l, 0.0); V u = flt(w[j]), q = flt(v[j]); for (int c = 0; c < l; c++) for (int i = 0; i < l; i++) { b[(size_t)c * l + i] = CM(j)->GetIsIntrinsic() ? r.n() : u[i] * q[c] + q[i] * u[c]; h[(size_t)(o + c) * L + o + i] = b[(size_t)c * l + i]; } o += l; blk_.push_back(b); } H = fromflat(H, h); }
            LinearOPE R(L, L); P->TranHInvTran(px, pw_, py, H, &R); V rv = flt(R); int o = 0; double off = 0, hn = vn(flt(H)); V m(rv);
            for (int j = 0; j < nc; j++) { int l = w[j].Getlength(); LinearOPE h(l, l), t(l, l); h = fromflat(h, blk_[j]); CM(j)->TranHInvTran(x[j], w[j], y[j], h, &t); V tv = flt(t), got((size_t)l * l); for (int c = 0; c < l; c++) for (int i = 0; i < l; i++) { got[(size_t)c * l + i] = rv[(size_t)(o + c) * L + o + i]; m[(size_t)(o + c) * L + o + i] = 0; } small("M09.operator", vn(vsub(got, tv)) / hn, tl, "diagonal block"); o += l; }
            off = vn(m); small("M09.operator", off / hn, tl, "off-diagonal blocks stay zero"); obs("operator transports");
        }
        // rank-one update: the covector of a tangent vector is the list of its components' covectors
        { int L = pw_.Getlength(); LinearOPE H(L, L), R(L, L); V h((size_t)L * L); for (auto &t : h) t = r.n(); H = fromflat(H, h); double sc = r.pickd({-1, 0.3, 2});
          std::vector<Element> fl; for (int j = 0; j < nc; j++) { Element o(v[j]); CM(j)->ObtainEtaxFlat(x[j], v[j], &o); fl.push_back(o); } V u = all(w), q = all(fl), ref(h); for (int c = 0; c < L; c++) for (int i = 0; i < L; i++) ref[(size_t)c * L + i] += sc * u[i] * q[c];
          P->HaddScaledRank1OPE(px, H, sc, pw_, pv, &R); double sz = vn(h) + vn(u) * vn(q); small("M09.rankone", relv(flt(R), ref, sz), tl); if (r.b()) { P->HaddScaledRank1OPE(px, H, sc, pw_, pv, &H); small("M09.rankone", relv(flt(H), ref, sz), tl, "in place"); } obs("rank-one updates"); }
        // gradients and Hessian actions
        bool uh = r.b(0.7); DummyProb D(uh); D.SetDomain(P.get()); Element gp = fresh(P.get(), false, pE), gq = fresh(Q.get(), false, qE);
        for (int j = 0; j < nc; j++) { }
        pE = pack(P.get(), E, false, false); qE = pack(Q.get(), E, false, true);
        Element px2 = pack(P.get(), x, false, false), qx2 = pack(Q.get(), x, false, true); std::vector<Element> xs; for (auto &e : x) xs.push_back(fromflat(e, flt(e)));
        P->EucGradToGrad(px2, pE, &D, &gp); Q->EucGradToGrad(qx2, qE, &D, &gq); cmp("gradient conversion", gp, gq, each([&](int j, Element *o) { Element t(E[j]); CM(j)->EucGradToGrad(xs[j], E[j], &D, &t); *o = t; }, false));
        over("gradient conversion", pE, gp, [&](Element &a_) { Element z = pack(P.get(), x, false, false); P->EucGradToGrad(z, a_, &D, &a_); });
        if (uh) { Element hE = pack(P.get(), W2, false, false), hQ = pack(Q.get(), W2, false, true), hp = fresh(P.get(), false, pE), hq = fresh(Q.get(), false, qE); P->EucHvToHv(px2, ep, hE, &D, &hp); Q->EucHvToHv(qx2, eq, hQ, &D, &hq); cmp("Hessian conversion", hp, hq, each([&](int j, Element *o) { Element t(W2[j]); CM(j)->EucHvToHv(xs[j], ex[j], W2[j], &D, &t); *o = t; }, false)); over("Hessian conversion", hE, hp, [&](Element &a_) { P->EucHvToHv(px2, ep, a_, &D, &a_); }); }
    }
    { Variable z = P->RandominManifold(); for (int j = 0; j < nc; j++) small("M09.random", T[ty[j]]->feas(z.GetElement(j)), 1e-9, "random point component"); }
    for (int i = 0; i < k; i++) expect(T[i]->M->GetIsIntrinsic() == flags[i].first && T[i]->M->GetHasHHR() == flags[i].second, "M09.flags", "using the product changed the settings of component type %d", i);
    g.done("product operations");
    P.reset(); Q.reset(); { Fix &F = *T[0]; double c; Variable z = F.pt(r, c); small("M09.alive", F.feas(z), 1e-9); Vector e = F.W(z, F.step(r, z, 0.1)); Variable o(z); F.M->Retraction(z, e, &o); small("M09.alive", F.feas(o), 1e-9, "component after the product is gone"); }
}
