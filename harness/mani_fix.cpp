#include "mani.h"
using namespace ROPTLIB;
namespace vh {
V fl(const Mat &A) { V v; for (auto &z : A.a) { v.push_back(z.real()); if (A.cx) v.push_back(z.imag()); } return v; }
Mat unfl(const double *p, int m, int n, bool cx) { Mat A(m, n, cx); for (size_t i = 0; i < A.a.size(); i++) A.a[i] = cx ? cd(p[2 * i], p[2 * i + 1]) : cd(p[i], 0); return A; }
double vdot(const V &a, const V &b) { double s = 0; for (size_t i = 0; i < a.size(); i++) s += a[i] * b[i]; return s; }
double vn(const V &a) { double m = 0; for (double x : a) { if (!std::isfinite(x)) return HUGE_VAL; m = std::max(m, std::fabs(x)); } if (m == 0) return 0; double s = 0; for (double x : a) s += (x / m) * (x / m); return m * std::sqrt(s); }
V vsub(const V &a, const V &b) { if (a.size() != b.size()) return V(1, HUGE_VAL); V c(a); for (size_t i = 0; i < c.size(); i++) c[i] -= b[i]; return c; }
Element fromflat(const Element &shape, const V &v) {
    Element e(shape); e.NewMemoryOnWrite(); double *p = e.ObtainWriteEntireData(); for (size_t i = 0; i < v.size(); i++) p[i] = v[i]; return e;
}
Vector Fix::comb(const Variable &x, double a, const Vector &v, double b, const Vector &w) { V p = flt(v), q = flt(w); for (size_t i = 0; i < p.size(); i++) p[i] = (a == 0 ? 0 : a * p[i]) + (b == 0 ? 0 : b * q[i]); return fromflat(M->GetEMPTYEXTR(), p); }
Vector Fix::extzero(const Variable &x) { Element e(M->GetEMPTYEXTR()); V z(e.Getlength(), 0.0); return fromflat(e, z); }
Vector Fix::amb(Rng &r, const Variable &x) { Element e(M->GetEMPTYEXTR()); V z(e.Getlength()); for (auto &t : z) t = r.n(); return fromflat(e, z); }

static double sc(double a) { return a > 1 ? a : 1; }
// one draw in 29 (a hash of the generator's state, so that the other cases stay as they are) is made with dimensions twice as large
static int big_ = 1; static int up(int a) { return a * big_; }
// ---------------------------------------------------------------- matrices with identity embedding
struct MatFix : Fix {
    bool cx = false; int n, p;
    V emb(const Variable &x) { return fl(of(x)); }
    V demb(const Variable &x, const Vector &e) { return fl(of(e)); }
    V d2emb(const Variable &x, const Vector &a, const Vector &b) { return V(flt(x).size(), 0.0); }
    Vector egrad(const Variable &x, const V &g) { return el(unfl(g.data(), n, p, cx)); }
    Vector ehess(const Variable &x, const Vector &e, const V &g, const V &dg) { return el(unfl(dg.data(), n, p, cx)); }
    double met(const Variable &x, const Vector &a, const Vector &b) { return rdot(of(a), of(b)); }
};
struct EucFix : MatFix {
    int k;
    EucFix(Rng &r, bool realonly) {
        cx = !realonly && r.b(0.3); n = r.i(1, up(6)); p = r.i(1, up(4)); k = r.b(0.2) ? 2 : 1;
        M = new Euclidean(n, p, k, cx ? "complex" : "real"); p *= k;
        name = cx ? "Euclidean/complex" : "Euclidean/real"; dim = n * p * (cx ? 2 : 1);
        isoVT = invVT = tranH = diffGen = diffSame = invretr = dist = true; expmap = true; cotan = true;
        char b[64]; snprintf(b, sizeof b, "n=%d p=%d k=%d", n, p, k); det = b;
    }
    ~EucFix() { delete M; }
    Element mk(const Mat &A) { Element e(n, p / k, k, cx); return fromflat(e, fl(A)); }
    Variable pt(Rng &r, double &c) { c = 1; return mk(randm(r, n, p, cx)); }
    double feas(const Variable &x) { return finite(of(x)) ? 0 : HUGE_VAL; }
    double tang(const Variable &x, const Vector &e) { return finite(of(e)) ? 0 : HUGE_VAL; }
    Vector tv(Rng &r, const Variable &x) { return mk(randm(r, n, p, cx)); }
    Vector egrad(const Variable &x, const V &g) { return mk(unfl(g.data(), n, p, cx)); }
    Vector ehess(const Variable &x, const Vector &e, const V &g, const V &dg) { return mk(unfl(dg.data(), n, p, cx)); }
    double hcorr(const Variable &, const Vector &, const Vector &, const V &, const Vector &) { return 0; }
    bool closed(const Variable &x, const Vector &e, const Variable &y, double &err, std::string &what) { err = rel(of(y), of(x) + of(e)); what = "x+v"; return true; }
};
// ---------------------------------------------------------------- Stiefel, complex Stiefel, sphere
struct StFix : MatFix {
    int ps; int retr = 0;   // 0 qf 1 polar 2 cayley 3 exp
    StFix() { }
    StFix(Rng &r, bool cx_) {
        cx = cx_; p = r.i(1, up(4)); n = p + r.i(0, up(5)); if (n * p * (cx ? 2 : 1) - (cx ? p * p : p * (p + 1) / 2) == 0) n++;
        char b[64];
        bool ext = false;
        if (!cx) {
            Stiefel *s = new Stiefel(n, p); M = s; ps = r.i(1, 5);
            if (ps == 1) s->ChooseParamsSet1(); else if (ps == 2) s->ChooseParamsSet2(); else if (ps == 3) s->ChooseParamsSet3(); else if (ps == 4) s->ChooseParamsSet4(); else s->ChooseParamsSet5();
            retr = ps == 5 ? 2 : ps >= 3 ? 1 : 0;
        } else {
            CStiefel *s = new CStiefel(n, p); M = s; ps = r.i(1, 4);
            if (ps == 1) s->ChooseParamsSet1(); else if (ps == 2) s->ChooseParamsSet2(); else if (ps == 3) s->ChooseParamsSet3(); else s->ChooseParamsSet4();
            retr = ps >= 3 ? 1 : 0;
        }
        bool par = ps == 1 || ps == 3;
        if (par && r.b(0.15)) { ext = true; M->SetIsIntrApproach(false); }
        dim = cx ? 2 * n * p - p * p : n * p - p * (p + 1) / 2;
        isoVT = (par && !ext) || ps == 5; invVT = isoVT; tranH = par && !ext;
        diffGen = retr == 0; diffSame = true; cotan = retr == 0 && !cx; normal = true; invretr = retr == 1; intr = retr != 2;
        snprintf(b, sizeof b, "%s/PS%d%s", cx ? "CStiefel" : "Stiefel", ps, ext ? "/extr" : ""); name = b;
        snprintf(b, sizeof b, "n=%d p=%d", n, p); det = b;
    }
    ~StFix() { delete M; }
    Variable pt(Rng &r, double &c) {
        c = 1; int k = r.i(0, 5);
        Mat X = randorth(r, n, p, cx);
        if (k == 0) { X = Mat(n, p, cx); for (int i = 0; i < p; i++) X(i, i) = 1; }
        else if (k == 1) { X = Mat(n, p, cx); for (int i = 0; i < p; i++) X(n - 1 - i, i) = r.b() ? -1 : 1; }
        return el(X);
    }
    double feas(const Variable &x) { Mat X = of(x); if (X.m != n || X.n != p) return HUGE_VAL; double e = nrm(H(X) * X - Mat::eye(p, cx)); return std::isfinite(e) ? e : HUGE_VAL; }
    double tang(const Variable &x, const Vector &e) { Mat X = of(x), Z = of(e); double s = nrm(Z); double t = nrm(sym(H(X) * Z)); return std::isfinite(t) ? t / (s > 0 ? s : 1) : HUGE_VAL; }
    Vector tv(Rng &r, const Variable &x) {
        Mat X = of(x), S = skew(randm(r, p, p, cx)), K = randm(r, n, p, cx);
        return el(X * S + K - X * (H(X) * K));
    }
    double hcorr(const Variable &x, const Vector &a, const Vector &b, const V &g, const Vector &) { Mat X = of(x), A = of(a), B = of(b); return -rdot(unfl(g.data(), n, p, cx), X * sym(H(A) * B)); }
    bool closed(const Variable &x, const Vector &e, const Variable &y, double &err, std::string &what) {
        Mat X = of(x), Z = of(e), Y = of(y);
        if (retr == 0) { Mat R = H(Y) * (X + Z); double o = 0; for (int j = 0; j < p; j++) { for (int i = j + 1; i < p; i++) o = std::max(o, std::abs(R(i, j))); o = std::max(o, std::fabs(R(j, j).imag())); if (!(R(j, j).real() > 0)) o = HUGE_VAL; }
            err = std::max(o, nrm(Y * R - X - Z)) / sc(nrm(Z)); what = "qf factor"; return true; }
        if (retr == 1) { Mat Pm = H(Y) * (X + Z); std::vector<double> w; Mat U; symeig(sym(Pm), w, U); err = std::max(nrm(skew(Pm)), nrm(Y * Pm - X - Z)) / sc(nrm(Z)); if (!(w[0] > 0)) err = HUGE_VAL; what = "polar factor"; return true; }
        if (retr == 2) { // Cayley: Y = X + t/2 W (X+Y), W = (I - XX'/2) Z X' - X Z'(I - XX'/2)
            Mat I = Mat::eye(n), P = I - cd(0.5) * (X * H(X)); Mat Wm = P * Z * H(X) - X * H(Z) * P; err = nrm(Y - X - cd(0.5) * (Wm * (X + Y))) / sc(nrm(Z)); what = "Cayley transform"; return true; }
        if (retr == 3) { double t = nrm(Z); Mat R = t > 0 ? cd(std::cos(t)) * X + cd(std::sin(t) / t) * Z : X; err = nrm(Y - R); what = "great circle"; return true; }
        return false;
    }
};
struct SphFix : StFix {
    SphFix(Rng &r) {
        n = r.i(2, 9 * big_ * big_); p = 1; Sphere *s = new Sphere(n); M = s; ps = r.i(1, 4);
        if (ps == 1) s->ChooseParamsSet1(); else if (ps == 2) s->ChooseParamsSet2(); else if (ps == 3) s->ChooseParamsSet3(); else s->ChooseParamsSet4();
        bool ext = false; if (ps == 1 && r.b(0.15)) { ext = true; M->SetIsIntrApproach(false); }
        retr = ps == 2 ? 3 : 0; dim = n - 1; isoVT = invVT = !ext; tranH = !ext; diffGen = diffSame = cotan = true; expmap = ps == 2; intr = ps != 2; normal = true;
        char b[64]; snprintf(b, sizeof b, "Sphere/PS%d%s", ps, ext ? "/extr" : ""); name = b; snprintf(b, sizeof b, "n=%d", n); det = b;
    }
    ~SphFix() { }
    double geod(const Variable &x, const Variable &y) { double d = nrm(of(x) - of(y)), s = nrm(of(x) + of(y)); return 2 * std::atan2(d, s); }
};
struct GrFix : MatFix {
    GrFix(Rng &r) {
        p = r.i(1, up(4)); n = p + r.i(1, up(5)); M = new Grassmann(n, p);
        bool ext = r.b(0.15); if (ext) M->SetIsIntrApproach(false);
        name = std::string("Grassmann/") + (ext ? "extr" : "intr"); dim = p * (n - p); isoVT = invVT = tranH = !ext; diffGen = diffSame = cotan = true; intr = true;
        char b[64]; snprintf(b, sizeof b, "n=%d p=%d", n, p); det = b;
    }
    ~GrFix() { delete M; }
    Variable pt(Rng &r, double &c) { c = 1; Mat X = randorth(r, n, p); if (r.b(0.2)) { X = Mat(n, p); for (int i = 0; i < p; i++) X(i, i) = 1; } return el(X); }
    double feas(const Variable &x) { Mat X = of(x); if (X.m != n || X.n != p) return HUGE_VAL; double e = nrm(H(X) * X - Mat::eye(p)); return std::isfinite(e) ? e : HUGE_VAL; }
    double tang(const Variable &x, const Vector &e) { Mat X = of(x), Z = of(e); double s = nrm(Z), t = nrm(H(X) * Z); return std::isfinite(t) ? t / (s > 0 ? s : 1) : HUGE_VAL; }
    Vector tv(Rng &r, const Variable &x) { Mat X = of(x), K = randm(r, n, p); K = K - X * (H(X) * K); return el(K - X * (H(X) * K)); }
    V emb(const Variable &x) { Mat X = of(x); return fl(X * H(X)); }
    V demb(const Variable &x, const Vector &e) { Mat X = of(x), Z = of(e); return fl(Z * H(X) + X * H(Z)); }
    V d2emb(const Variable &, const Vector &a, const Vector &b) { Mat A = of(a), B = of(b); return fl(A * H(B) + B * H(A)); }
    Vector egrad(const Variable &x, const V &g) { Mat G = unfl(g.data(), n, n, false); return el((G + H(G)) * of(x)); }
    Vector ehess(const Variable &x, const Vector &e, const V &g, const V &dg) { Mat G = unfl(g.data(), n, n, false), D = unfl(dg.data(), n, n, false); return el((D + H(D)) * of(x) + (G + H(G)) * of(e)); }
    double hcorr(const Variable &x, const Vector &a, const Vector &b, const V &g, const Vector &) {   // horizontal: second fundamental form of Stiefel
        Mat X = of(x), G = unfl(g.data(), n, n, false), eg = (G + H(G)) * X, A = of(a), B = of(b);
        return vdot(g, d2emb(x, a, b)) - rdot(eg, X * sym(H(A) * B));
    }
    bool closed(const Variable &x, const Vector &e, const Variable &y, double &err, std::string &what) {
        Mat X = of(x), Z = of(e), Y = of(y), R = H(Y) * (X + Z); err = nrm(Y * R - X - Z) / sc(nrm(Z)); what = "span(x+v)"; return true;
    }
};
// Koszul correction with the documented metric differentiated numerically (constant ambient fields)
static double koszul(Fix &F, const Variable &x, const Vector &a, const Vector &b, const Vector &w) {
    auto D = [&](const Vector &dir, const Vector &u, const Vector &v) {
        V X = flt(x), d = flt(dir); double s = vn(X) / std::max(vn(d), 1e-300); double h = 1e-3 * std::min(s, 1e6);
        auto at = [&](double t) { V Y = X; for (size_t i = 0; i < Y.size(); i++) Y[i] += t * d[i]; return F.met(fromflat(x, Y), u, v); };
        return (8 * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h);
    };
    return 0.5 * (D(a, b, w) + D(b, a, w) - D(w, a, b));
}
struct SpdFix : MatFix {
    int ps; bool af, second;
    SpdFix(Rng &r) {
        n = p = r.i(1, up(5)); SPDManifold *s = new SPDManifold(n); M = s; ps = r.i(1, 4);
        if (ps == 1) s->ChooseParamsSet1(); else if (ps == 2) s->ChooseParamsSet2(); else if (ps == 3) s->ChooseParamsSet3(); else s->ChooseParamsSet4();
        bool ext = ps <= 2 && r.b(0.15); if (ext) M->SetIsIntrApproach(false);
        af = ps == 1 || ps == 3; second = ps <= 2; dim = n * (n + 1) / 2; isoVT = (ps <= 2 && !ext) || ps == 3; tranH = invVT = ps <= 2 && !ext;
        diffGen = diffSame = second; expmap = ps == 3; dist = true; intr = true;
        char b[64]; snprintf(b, sizeof b, "SPD/PS%d%s", ps, ext ? "/extr" : ""); name = b; snprintf(b, sizeof b, "n=%d", n); det = b;
    }
    ~SpdFix() { delete M; }
    double condition(const Variable &x) { std::vector<double> w; Mat U; symeig(sym(of(x)), w, U); return w[0] > 0 ? w[n - 1] / w[0] : 1e300; }
    double limit(const Variable &x, const Vector &v) { Mat S = funsym(sym(of(x)), [](double t) { return 1 / std::sqrt(t); }); double d = nrm(S * of(v) * S); return d > 0 ? 6 / d : 1e300; }
    Vector egrad(const Variable &x, const V &g) { return el(sym(unfl(g.data(), n, n, false))); }
    Vector ehess(const Variable &x, const Vector &e, const V &g, const V &dg) { return el(sym(unfl(dg.data(), n, n, false))); }
    double geod(const Variable &x, const Variable &y) {
        if (!af) return nrm(of(x) - of(y));
        Mat S = funsym(sym(of(x)), [](double t) { return 1 / std::sqrt(t); }); std::vector<double> w; Mat U; symeig(sym(S * of(y) * S), w, U); double q = 0; for (double t : w) q += std::log(t) * std::log(t); return std::sqrt(q);
    }
    Variable pt(Rng &r, double &c) { int k = r.i(0, 4); double cn = k == 0 ? 1 : k == 1 ? 1e3 : 20; c = cn; Mat X = k == 0 ? cd(r.pickd({1, 0.1, 10})) * Mat::eye(n) : randspd(r, n, false, cn); if (k == 4) X = cd(std::pow(10.0, r.i(-3, 3))) * X; return el(X); }
    double feas(const Variable &x) { Mat X = of(x); if (!finite(X)) return HUGE_VAL; double s = nrm(X); std::vector<double> w; Mat U; symeig(sym(X), w, U); if (!(w[0] > 0)) return HUGE_VAL; return nrm(skew(X)) / s; }
    double tang(const Variable &x, const Vector &e) { Mat Z = of(e); double s = nrm(Z), t = nrm(skew(Z)); return std::isfinite(t) ? t / (s > 0 ? s : 1) : HUGE_VAL; }
    double met(const Variable &x, const Vector &a, const Vector &b) { Mat A = of(a), B = of(b); if (!af) return rdot(A, B); Mat Xi = inv(of(x)); return trace(Xi * A * Xi * B).real(); }
    Vector tv(Rng &r, const Variable &x) { Mat X = of(x), S = funsym(sym(X), [](double t) { return std::sqrt(std::fabs(t)); }); return el(sym(S * sym(randm(r, n, n)) * S)); }
    double hcorr(const Variable &x, const Vector &a, const Vector &b, const V &g, const Vector &grad) {
        if (!af) return 0;   // flat
        Mat Xi = inv(of(x)), A = of(a), B = of(b); // D_A B = -sym(A X^-1 B)
        return rdot(sym(unfl(g.data(), n, n, false)), sym(A * Xi * B));
    }
    bool closed(const Variable &x, const Vector &e, const Variable &y, double &err, std::string &what) {
        Mat X = of(x), Z = of(e), Y = of(y);
        if (second) { Mat R = X + Z + cd(0.5) * (Z * inv(X) * Z); err = rel(Y, R, 0); what = "second-order retraction"; return true; }
        Mat S = funsym(sym(X), [](double t) { return std::sqrt(t); }), Si = inv(S); Mat R = S * funsym(sym(Si * Z * Si), [](double t) { return std::exp(t); }) * S; err = rel(Y, R, 0); what = "exponential"; return true;
    }
};
struct SfrFix : MatFix {
    int ps, g; bool par;   // g: 0 EUC 1 HGZ 2 QEUC
    bool ext;
    SfrFix(Rng &r, bool cx_) {
        cx = cx_; p = r.i(1, up(3)); n = 2 * p + r.i(0, up(4)); if (n < 2) n = 2;
        if (!cx) { SymFixedRankQ *s = new SymFixedRankQ(n, p); M = s; ps = r.i(1, 6);
            if (ps == 1) s->ChooseParamsSet1(); else if (ps == 2) s->ChooseParamsSet2(); else if (ps == 3) s->ChooseParamsSet3(); else if (ps == 4) s->ChooseParamsSet4(); else if (ps == 5) s->ChooseParamsSet5(); else s->ChooseParamsSet6();
            g = (ps - 1) % 3; par = ps <= 3; dim = n * p - p * (p - 1) / 2;
        } else { CSymFixedRankQ *s = new CSymFixedRankQ(n, p); M = s; ps = r.i(1, 4);
            if (ps == 1) s->ChooseParamsSet1(); else if (ps == 2) s->ChooseParamsSet2(); else if (ps == 3) s->ChooseParamsSet3(); else s->ChooseParamsSet4();
            g = (ps - 1) % 2; par = ps <= 2; dim = 2 * n * p - p * p;
        }
        ext = r.b(0.15); if (ext) M->SetIsIntrApproach(false);
        isoVT = invVT = tranH = par && !ext; diffSame = diffGen = ext; diffProj = !ext; intr = true;
        char b[64]; snprintf(b, sizeof b, "%s/PS%d%s", cx ? "CSymFixedRankQ" : "SymFixedRankQ", ps, ext ? "/extr" : ""); name = b; snprintf(b, sizeof b, "n=%d p=%d", n, p); det = b;
    }
    ~SfrFix() { delete M; }
    double condition(const Variable &x) { auto v = singvals(of(x)); return v.back() > 0 ? (v[0] / v.back()) * (v[0] / v.back()) : 1e300; }
    double limit(const Variable &x, const Vector &v) { auto sv = singvals(of(x)); double l = sv.back() * sv.back(), d = nrm(Mat(of(v) * H(of(x)) + of(x) * H(of(v)))); if (ext) { l = sv.back(); d = nrm(of(v)); } return d > 0 ? 0.4 * l / d : 1e300; }
    Variable pt(Rng &r, double &c) { int k = r.i(0, 3); double s = k == 1 ? 30 : k == 2 ? 1 : 4; c = s; Mat Q = randorth(r, n, p, cx), U = randorth(r, p, p, cx), D(p, p, cx); for (int i = 0; i < p; i++) D(i, i) = std::pow(s, r.u() - 0.5); if (k == 3) D = cd(std::pow(10.0, r.i(-2, 2))) * D; return el(Q * D * U); }
    double feas(const Variable &x) { Mat X = of(x); if (!finite(X) || X.m != n || X.n != p) return HUGE_VAL; auto s = singvals(X); return s.back() > 1e-13 * s[0] && s[0] > 0 ? 0 : HUGE_VAL; }
    double tang(const Variable &x, const Vector &e) { Mat X = of(x), Z = of(e); if (!finite(Z)) return HUGE_VAL; Mat K = H(X) * Z; double s = nrm(Z) * nrm(X); if (g != 2) { Mat Gi = inv(H(X) * X); K = Gi * K; s = nrm(Gi) * nrm(X) * nrm(Z); } double t = nrm(skew(K)); return t / (s > 0 ? s : 1); }
    double met(const Variable &x, const Vector &a, const Vector &b) {
        Mat X = of(x), A = of(a), B = of(b);
        if (g == 2) return rdot(A, B);
        double t = trace(H(X) * X * H(A) * B).real(); if (g == 1) return t;
        return 2 * (trace(H(X) * A * H(X) * B).real() + t);
    }
    Vector tv(Rng &r, const Variable &x) {
        Mat X = of(x), S = sym(randm(r, p, p, cx)), G = inv(H(X) * X), K = randm(r, n, p, cx), P = K - X * (G * (H(X) * K)); P = P - X * (G * (H(X) * P));
        double f = std::sqrt(nrm(X) * nrm(X) / p);
        if (g == 2) return el(cd(f * f) * (X * G * S) + cd(f) * P);
        return el(X * S + cd(f) * P);
    }
    V emb(const Variable &x) { Mat X = of(x); return fl(X * H(X)); }
    V demb(const Variable &x, const Vector &e) { Mat X = of(x), Z = of(e); return fl(Z * H(X) + X * H(Z)); }
    V d2emb(const Variable &, const Vector &a, const Vector &b) { Mat A = of(a), B = of(b); return fl(A * H(B) + B * H(A)); }
    Vector egrad(const Variable &x, const V &gv) { Mat G = unfl(gv.data(), n, n, cx); return el((G + H(G)) * of(x)); }
    Vector ehess(const Variable &x, const Vector &e, const V &gv, const V &dg) { Mat G = unfl(gv.data(), n, n, cx), D = unfl(dg.data(), n, n, cx); return el((D + H(D)) * of(x) + (G + H(G)) * of(e)); }
    double hcorr(const Variable &x, const Vector &a, const Vector &b, const V &gv, const Vector &w) { return vdot(gv, d2emb(x, a, b)) - koszul(*this, x, a, b, w); }
    bool closed(const Variable &x, const Vector &e, const Variable &y, double &err, std::string &what) {
        Mat X = of(x), Z = of(e), Y = of(y);
        if (ext) { err = rel(Y, X + Z, 0); what = "x+v"; return true; }
        Mat S = sym(X * H(X) + Z * H(X) + X * H(Z)); std::vector<double> w; Mat U; symeig(S, w, U);
        Mat T(n, n, cx); for (int k = n - p; k < n; k++) { if (!(w[k] > 1e-3 * std::fabs(w[n - 1]))) return false; Mat u = blk(U, 0, n - 1, k, k); T = T + cd(w[k]) * (u * H(u)); }
        if (n > p && w[n - p] - std::fabs(w[n - p - 1]) < 0.05 * w[n - p]) return false;   // eigenspace not separated
        err = rel(Y * H(Y), T, 0); what = "rank-p projection of yy'+d"; return true;
    }
};
struct FreFix : Fix {
    int m, n, k;
    FreFix(Rng &r) {
        k = r.i(1, up(3)); m = k + r.i(0, up(4)); n = k + r.i(0, up(4)); M = new FixedRankE(m, n, k);
        name = "FixedRankE"; dim = (m + n - k) * k; diffSame = true; normal = m > k && n > k; secondorder = false;
        char b[64]; snprintf(b, sizeof b, "m=%d n=%d r=%d", m, n, k); det = b;
    }
    ~FreFix() { delete M; }
    double condition(const Variable &x) { if (!x.FieldsExist("D")) return 1; auto v = singvals(fld(x, "D")); return v.back() > 0 ? v[0] / v.back() : 1e300; }
    double limit(const Variable &x, const Vector &v) { double d = nrm(fld(v, "dD")); return d > 0 ? 0.4 * singvals(fld(x, "D")).back() / d : 1e300; }
    static Mat fld(const Element &e, const char *s) { return of(e.Field(s)); }
    Variable mk(const Mat &U, const Mat &D, const Mat &Vm) { Element e = el(U * D * H(Vm)); e.AddToFields("U", el(U)); e.AddToFields("D", el(D)); e.AddToFields("V", el(Vm)); return e; }
    Vector mkt(const Variable &x, const Mat &a, const Mat &b, const Mat &c) { Mat U = fld(x, "U"), D = fld(x, "D"), Vm = fld(x, "V"); Element e = el(a * D * H(Vm) + U * b * H(Vm) + U * D * H(c)); e.AddToFields("dU", el(a)); e.AddToFields("dD", el(b)); e.AddToFields("dV", el(c)); return e; }
    Variable pt(Rng &r, double &c) { double s = r.pickd({1, 5, 50}); c = s; Mat D = randorth(r, k, k), E = randorth(r, k, k), S(k, k); for (int i = 0; i < k; i++) S(i, i) = std::pow(s, r.u() - 0.5); return mk(randorth(r, m, k), D * S * E, randorth(r, n, k)); }
    double feas(const Variable &x) {
        for (const char *f : {"U", "D", "V"}) if (!x.FieldsExist(f)) return HUGE_VAL;
        Mat U = fld(x, "U"), D = fld(x, "D"), Vm = fld(x, "V"), X = of(x); if (!finite(X)) return HUGE_VAL;
        double e = std::max(nrm(H(U) * U - Mat::eye(k)), nrm(H(Vm) * Vm - Mat::eye(k))); e = std::max(e, nrm(X - U * D * H(Vm)) / nrm(D)); auto s = singvals(D); if (!(s.back() > 1e-13 * s[0])) return HUGE_VAL; return e;
    }
    double tang(const Variable &x, const Vector &e) {
        for (const char *f : {"dU", "dD", "dV"}) if (!e.FieldsExist(f)) return HUGE_VAL;
        Mat U = fld(x, "U"), D = fld(x, "D"), Vm = fld(x, "V"), a = fld(e, "dU"), b = fld(e, "dD"), c = fld(e, "dV"), Z = of(e); if (!finite(Z) || !finite(a) || !finite(b) || !finite(c)) return HUGE_VAL;
        double s = std::max(nrm(Z), 1e-300), d = nrm(D); double t = std::max(nrm(H(U) * a), nrm(H(Vm) * c)) * d; t = std::max(t, nrm(Z - (a * D * H(Vm) + U * b * H(Vm) + U * D * H(c)))); return nrm(Z) == 0 ? t : t / s;
    }
    double met(const Variable &x, const Vector &a, const Vector &b) { return rdot(of(a), of(b)); }
    V emb(const Variable &x) { return fl(of(x)); }
    V demb(const Variable &x, const Vector &e) { return fl(of(e)); }
    V d2emb(const Variable &x, const Vector &, const Vector &) { return V(m * n, 0.0); }
    Vector egrad(const Variable &x, const V &g) { return el(unfl(g.data(), m, n, false)); }
    Vector ehess(const Variable &x, const Vector &e, const V &g, const V &dg) { return el(unfl(dg.data(), m, n, false)); }
    double hcorr(const Variable &x, const Vector &a, const Vector &b, const V &g, const Vector &) { Mat D = fld(x, "D"); return rdot(unfl(g.data(), m, n, false), fld(a, "dU") * D * H(fld(b, "dV")) + fld(b, "dU") * D * H(fld(a, "dV"))); }
    Vector tv(Rng &r, const Variable &x) {
        Mat U = fld(x, "U"), D = fld(x, "D"), Vm = fld(x, "V"), a = randm(r, m, k), c = randm(r, n, k); a = a - U * (H(U) * a); c = c - Vm * (H(Vm) * c); a = a - U * (H(U) * a); c = c - Vm * (H(Vm) * c);
        return mkt(x, a, cd(nrm(D)) * randm(r, k, k), c);
    }
    Vector comb(const Variable &x, double a, const Vector &v, double b, const Vector &w) {
        auto L = [&](const char *f) { return cd(a) * fld(v, f) + cd(b) * fld(w, f); };
        return mkt(x, L("dU"), L("dD"), L("dV"));
    }
    Vector extzero(const Variable &x) { return mkt(x, Mat(m, k), Mat(k, k), Mat(n, k)); }
    bool closed(const Variable &x, const Vector &e, const Variable &y, double &err, std::string &what) {
        auto pol = [](const Mat &A) { return A * funsym(sym(H(A) * A), [](double t) { return 1 / std::sqrt(t); }); };
        Mat U = pol(fld(x, "U") + fld(e, "dU")), Vm = pol(fld(x, "V") + fld(e, "dV")); err = rel(of(y), U * (fld(x, "D") + fld(e, "dD")) * H(Vm), 0); what = "polar factors"; return true;
    }
    V extdistinct(const Variable &, const Vector &e) { V v = flt(e); for (const char *f : {"dU", "dD", "dV"}) { if (!e.FieldsExist(f)) { v.push_back(NAN); continue; } V w = flt(e.Field(f)); v.insert(v.end(), w.begin(), w.end()); } return v; }
};
struct Q2Fix : Fix {
    int m, n, k; bool cx, ext;
    Q2Fix(Rng &r, bool cx_) {
        cx = cx_; k = r.i(1, up(3)); m = k + r.i(0, up(4)); n = k + r.i(0, up(4));
        if (cx) M = new CFixedRankQ2F(m, n, k); else M = new FixedRankQ2F(m, n, k);
        ext = r.b(0.2); if (ext) M->SetIsIntrApproach(false);
        name = std::string(cx ? "CFixedRankQ2F" : "FixedRankQ2F") + (ext ? "/extr" : ""); dim = (m + n - k) * k * (cx ? 2 : 1);
        isoVT = invVT = true; tranH = !ext; diffGen = diffSame = true; intr = true; pointIsProduct = true;
        char b[64]; snprintf(b, sizeof b, "m=%d n=%d r=%d", m, n, k); det = b;
    }
    ~Q2Fix() { delete M; }
    double condition(const Variable &x) { auto a = singvals(G(x)), b = singvals(Hh(x)); if (!(a.back() > 0 && b.back() > 0)) return 1e300; double q = a[0] / b[0]; return a[0] / a.back() * (b[0] / b.back()) * std::max(q, 1 / q); }
    double limit(const Variable &x, const Vector &v) { double a = nrm(G(v)), b = nrm(Hh(v)); double l = 1e300; if (a > 0) l = std::min(l, 0.4 * singvals(G(x)).back() / a); if (b > 0) l = std::min(l, 0.4 * singvals(Hh(x)).back() / b); return l; }
    Element mk(const Mat &G, const Mat &Hm) { V v = fl(G), w = fl(Hm); v.insert(v.end(), w.begin(), w.end()); return fromflat(M->GetEMPTYEXTR(), v); }
    Mat G(const Element &e) { V v = flt(e); return unfl(v.data(), m, k, cx); }
    Mat Hh(const Element &e) { V v = flt(e); return unfl(v.data() + (cx ? 2 : 1) * m * k, n, k, cx); }
    Variable pt(Rng &r, double &c) { double s = r.pickd({1, 4, 20}); c = s; auto one = [&](int q) { Mat D(k, k, cx); for (int i = 0; i < k; i++) D(i, i) = std::pow(s, r.u() - 0.5); return randorth(r, q, k, cx) * D * randorth(r, k, k, cx); }; Mat a = one(m), b = one(n); return mk(a, b); }
    double feas(const Variable &x) { Mat a = G(x), b = Hh(x); if (!finite(a) || !finite(b)) return HUGE_VAL; auto s = singvals(a), t = singvals(b); return s.back() > 1e-13 * s[0] && t.back() > 1e-13 * t[0] ? 0 : HUGE_VAL; }
    double tang(const Variable &x, const Vector &e) {
        Mat g = G(x), h = Hh(x), a = G(e), b = Hh(e); if (!finite(a) || !finite(b)) return HUGE_VAL;
        Mat K1 = inv(H(g) * g) * (H(g) * a), K2 = inv(H(h) * h) * (H(h) * b); double s = nrm(inv(H(g) * g)) * nrm(g) * nrm(a) + nrm(inv(H(h) * h)) * nrm(h) * nrm(b); double t = nrm(K1 - H(K2)); return t / (s > 0 ? s : 1);
    }
    Mat d(const Variable &x, const Vector &e) { return G(e) * H(Hh(x)) + G(x) * H(Hh(e)); }
    double met(const Variable &x, const Vector &a, const Vector &b) { return rdot(d(x, a), d(x, b)); }
    V emb(const Variable &x) { return fl(G(x) * H(Hh(x))); }
    V demb(const Variable &x, const Vector &e) { return fl(d(x, e)); }
    V d2emb(const Variable &x, const Vector &a, const Vector &b) { return fl(G(a) * H(Hh(b)) + G(b) * H(Hh(a))); }
    Vector egrad(const Variable &x, const V &gz) { Mat Z = unfl(gz.data(), m, n, cx); return mk(Z * Hh(x), H(Z) * G(x)); }
    Vector ehess(const Variable &x, const Vector &e, const V &gz, const V &dg) { Mat Z = unfl(gz.data(), m, n, cx), D = unfl(dg.data(), m, n, cx); return mk(D * Hh(x) + Z * Hh(e), H(D) * G(x) + H(Z) * G(e)); }
    double hcorr(const Variable &x, const Vector &a, const Vector &b, const V &gz, const Vector &w) { return vdot(gz, d2emb(x, a, b)) - koszul(*this, x, a, b, w); }
    Vector tv(Rng &r, const Variable &x) {
        Mat g = G(x), h = Hh(x), K = randm(r, k, k, cx), T = randm(r, m, k, cx), Q = randm(r, n, k, cx); T = T - g * (inv(H(g) * g) * (H(g) * T)); Q = Q - h * (inv(H(h) * h) * (H(h) * Q)); T = T - g * (inv(H(g) * g) * (H(g) * T)); Q = Q - h * (inv(H(h) * h) * (H(h) * Q));
        return mk(g * K + cd(nrm(g)) * T, h * H(K) + cd(nrm(h)) * Q);
    }
    bool closed(const Variable &x, const Vector &e, const Variable &y, double &err, std::string &what) { V a = flt(x), b = flt(e), c = flt(y); for (size_t i = 0; i < a.size(); i++) a[i] += b[i]; err = vn(vsub(a, c)) / vn(c); what = "(G+dG,H+dH)"; return true; }
};
// ---------------------------------------------------------------- unit sphere of a tangent space
struct TxFix : Fix {
    FP in; Variable root; bool fre = false;
    TxFix(Rng &r) {
        for (int t = 0; t < 50; t++) { in = mkfix(r, F_NOPROD | F_NOTX | F_NOHHR | F_NOFRE); if (in->dim >= 2) break; }
        double c; root = in->pt(r, c);
        if (c > 100) { for (int t = 0; t < 20 && c > 100; t++) root = in->pt(r, c); }
        M = new SphereTx(in->M, &root); name = "SphereTx(" + in->name + ")"; dim = in->dim - 1; det = in->det; isoVT = invVT = true; tranH = false; diffSame = true; expmap = true; dimdoc = false;
    }
    ~TxFix() { delete M; }
    // all vectors are working-representation vectors of the inner manifold at root; inner product = inner metric at root
    double geod(const Variable &x, const Variable &y) { Vector d = fromflat(x, vsub(flt(x), flt(y))); V p = flt(x), q = flt(y); for (size_t i = 0; i < p.size(); i++) p[i] += q[i]; Vector s = fromflat(x, p); return 2 * std::atan2(std::sqrt(ip(d, d)), std::sqrt(ip(s, s))); }
    double ip(const Vector &a, const Vector &b) { return in->met(root, in->E(root, a), in->E(root, b)); }
    double lin(const Vector &e) { if (in->M->GetIsIntrinsic()) return finiteV(flt(e)) ? 0 : HUGE_VAL; return in->tang(root, e); }
    static bool finiteV(const V &v) { for (double t : v) if (!std::isfinite(t)) return false; return true; }
    Variable pt(Rng &r, double &c) { c = 1; Vector w = in->W(root, in->tvs(r, root, 1.0)); return fromflat(w, flt(w)); }
    double feas(const Variable &x) { return std::max(lin(x), std::fabs(ip(x, x) - 1)); }
    double tang(const Variable &x, const Vector &e) { double s = std::sqrt(std::max(0.0, ip(e, e))); return std::max(lin(e), std::fabs(ip(x, e)) / (s > 0 ? s : 1)); }
    double met(const Variable &x, const Vector &a, const Vector &b) { return ip(a, b); }
    V emb(const Variable &x) { return flt(x); }
    V demb(const Variable &, const Vector &e) { return flt(e); }
    V d2emb(const Variable &x, const Vector &, const Vector &) { return V(flt(x).size(), 0.0); }
    // the ambient gradient is taken with the inner metric of the tangent space (as SphereTxRQ supplies it); only offered when that metric is the dot product
    Vector egrad(const Variable &x, const V &g) { return fromflat(x, g); }
    Vector ehess(const Variable &x, const Vector &, const V &, const V &dg) { return fromflat(x, dg); }
    double hcorr(const Variable &x, const Vector &a, const Vector &b, const V &g, const Vector &) { return -ip(a, b) * vdot(flt(x), g); }
    Vector tv(Rng &r, const Variable &x) { Vector w = in->W(root, in->tvs(r, root, 1.0)); V a = flt(w), b = flt(x); double t = ip(w, x); for (size_t i = 0; i < a.size(); i++) a[i] -= t * b[i]; return fromflat(w, a); }
    Vector amb(Rng &r, const Variable &x) { V z(x.Getlength()); for (auto &t : z) t = r.n(); return fromflat(x, z); }
    bool closed(const Variable &x, const Vector &e, const Variable &y, double &err, std::string &what) { double t = std::sqrt(std::max(0.0, ip(e, e))); V a = flt(x), b = flt(e); for (size_t i = 0; i < a.size(); i++) a[i] = std::cos(t) * a[i] + (t > 0 ? std::sin(t) / t : 0) * b[i]; err = vn(vsub(a, flt(y))) / vn(a); what = "great circle"; return true; }
};
// ---------------------------------------------------------------- products
struct PrFix : Fix {
    std::vector<FP> types; std::vector<int> mult; std::vector<int> of_;   // of_[j] = type of component j
    PrFix(std::vector<FP> &&ty, const std::vector<int> &mu) : types(std::move(ty)), mult(mu) { init((int)types.size(), true); }
    PrFix(Rng &r, bool anyc) {
        int k = r.i(1, up(2) + 1), mm = up(2);
        for (int i = 0; i < k; i++) { FP f = mkfix(r, F_NOPROD | F_NOTX | F_NOHHR | F_NOFRE | (anyc ? 0 : 0) | 128); types.push_back(std::move(f)); mult.push_back(r.i(1, mm)); }
        init(k, r.b(0.5));
    }
    void init(int k, bool generic) {
        name = "Product(";
        std::vector<Manifold *> ms; std::vector<int> pw(1, 0);
        for (int i = 0; i < k; i++) { ms.push_back(types[i]->M); for (int j = 0; j < mult[i]; j++) of_.push_back(i); pw.push_back((int)of_.size()); name += (i ? "," : "") + types[i]->name; det += types[i]->det + " x" + std::to_string(mult[i]) + "; "; }
        name += ")";
        if (generic || k > 4) { std::vector<integer> p2(pw.begin(), pw.end()); M = new MultiManifolds(ms.data(), k, p2.data()); }
        else if (k == 1) M = new ProductManifold(1, ms[0], (integer)mult[0]);
        else if (k == 2) M = new ProductManifold(2, ms[0], (integer)mult[0], ms[1], (integer)mult[1]);
        else if (k == 3) M = new ProductManifold(3, ms[0], (integer)mult[0], ms[1], (integer)mult[1], ms[2], (integer)mult[2]);
        else M = new ProductManifold(4, ms[0], (integer)mult[0], ms[1], (integer)mult[1], ms[2], (integer)mult[2], ms[3], (integer)mult[3]);
        isoVT = invVT = tranH = diffGen = diffSame = cotan = dist = invretr = true; intr = true; expmap = true; pointIsProduct = true;
        for (int j : of_) { Fix &f = *types[j]; dim += f.dim; isoVT &= f.isoVT; invVT &= f.invVT; tranH &= f.tranH; diffGen &= f.diffGen; diffSame &= f.diffSame; cotan &= f.cotan; dist &= f.dist; invretr &= f.invretr; expmap &= f.expmap; diffProj |= f.diffProj; }
    }
    ~PrFix() { delete M; }
    double condition(const Variable &x) { double l = 1; for (int j = 0; j < nc(); j++) l = std::max(l, C(j).condition(x.GetElement(j))); return l; }
    double limit(const Variable &x, const Vector &v) { double l = 1e300; for (int j = 0; j < nc(); j++) l = std::min(l, C(j).limit(x.GetElement(j), v.GetElement(j))); return l; }
    int nc() { return (int)of_.size(); }
    Fix &C(int j) { return *types[of_[j]]; }
    template <class G> Element build(const Element &shape, G g) { Element e(shape); e.NewMemoryOnWrite(); for (int j = 0; j < nc(); j++) e.GetElement(j) = g(j); return e; }
    Variable pt(Rng &r, double &c) { c = 1; return build(M->GetEMPTYEXTR(), [&](int j) { double k; Variable v = C(j).pt(r, k); c = std::max(c, k); return v; }); }
    double feas(const Variable &x) { double e = 0; for (int j = 0; j < nc(); j++) e = std::max(e, C(j).feas(x.GetElement(j))); return e; }
    double tang(const Variable &x, const Vector &v) {      // components count by their share of the whole vector (down to 1e-6)
        double e = 0, tot = vn(raw(v)); if (!std::isfinite(tot)) return HUGE_VAL;
        for (int j = 0; j < nc(); j++) { double t = C(j).tang(x.GetElement(j), v.GetElement(j)), w = tot > 0 ? std::max(1e-6, vn(raw(v.GetElement(j))) / tot) : 1; if (!std::isfinite(t)) return HUGE_VAL; e = std::max(e, t * std::min(1.0, w)); } return e;
    }
    double met(const Variable &x, const Vector &a, const Vector &b) { double s = 0; for (int j = 0; j < nc(); j++) s += C(j).met(x.GetElement(j), a.GetElement(j), b.GetElement(j)); return s; }
    template <class G> V cat(G g) { V v; for (int j = 0; j < nc(); j++) { V w = g(j); v.insert(v.end(), w.begin(), w.end()); } return v; }
    V emb(const Variable &x) { return cat([&](int j) { return C(j).emb(x.GetElement(j)); }); }
    V demb(const Variable &x, const Vector &e) { return cat([&](int j) { return C(j).demb(x.GetElement(j), e.GetElement(j)); }); }
    V d2emb(const Variable &x, const Vector &a, const Vector &b) { return cat([&](int j) { return C(j).d2emb(x.GetElement(j), a.GetElement(j), b.GetElement(j)); }); }
    V part(const Variable &x, const V &g, int j) { size_t o = 0; for (int i = 0; i < j; i++) o += C(i).emb(x.GetElement(i)).size(); size_t l = C(j).emb(x.GetElement(j)).size(); return V(g.begin() + o, g.begin() + o + l); }
    Vector egrad(const Variable &x, const V &g) { return build(M->GetEMPTYEXTR(), [&](int j) { return C(j).egrad(x.GetElement(j), part(x, g, j)); }); }
    Vector ehess(const Variable &x, const Vector &e, const V &g, const V &dg) { return build(M->GetEMPTYEXTR(), [&](int j) { return C(j).ehess(x.GetElement(j), e.GetElement(j), part(x, g, j), part(x, dg, j)); }); }
    double hcorr(const Variable &x, const Vector &a, const Vector &b, const V &g, const Vector &w) { double s = 0; for (int j = 0; j < nc(); j++) s += C(j).hcorr(x.GetElement(j), a.GetElement(j), b.GetElement(j), part(x, g, j), w.GetElement(j)); return s; }
    Vector tv(Rng &r, const Variable &x) { return build(M->GetEMPTYEXTR(), [&](int j) { return C(j).tvs(r, x.GetElement(j), 1.0); }); }
    bool closed(const Variable &x, const Vector &e, const Variable &y, double &err, std::string &what) { err = 0; bool any = false; for (int j = 0; j < nc(); j++) { double t; std::string w; if (C(j).closed(x.GetElement(j), e.GetElement(j), y.GetElement(j), t, w)) { any = true; if (t > err) { err = t; what = w; } } } return any; }
};
// flag 128: component of a product (no extrinsic override, so that the component's own representation is the default one)
FP mkfix(Rng &r, int flags, int kind) {
    for (int t = 0; t < 1000; t++) {
        Rng q = r; big_ = (q.next() >> 40) % 29 == 0 ? 2 : 1;
        int k = kind >= 0 ? kind : r.i(0, 13);
        FP f;
        switch (k) {
        case 0: f.reset(new EucFix(r, flags & F_REALONLY)); break;
        case 1: case 2: f.reset(new StFix(r, false)); break;
        case 3: f.reset(new StFix(r, true)); break;
        case 4: f.reset(new SphFix(r)); break;
        case 5: f.reset(new GrFix(r)); break;
        case 6: f.reset(new SpdFix(r)); break;
        case 7: f.reset(new SfrFix(r, false)); break;
        case 8: f.reset(new SfrFix(r, true)); break;
        case 9: if (flags & F_NOFRE) continue; f.reset(new FreFix(r)); break;
        case 10: if (flags & 128) continue; f.reset(new Q2Fix(r, false)); break;
        case 11: if (flags & 128) continue; f.reset(new Q2Fix(r, true)); break;
        case 12: if (flags & F_NOTX) continue; f.reset(new TxFix(r)); break;
        case 13: if (flags & F_NOPROD) continue; f.reset(new PrFix(r, true)); break;
        }
        if ((flags & 128) && f->name.find("/extr") != std::string::npos) continue;
        bool canhhr = f->diffSame && f->name.find("SphereTx") == std::string::npos;
        bool h = (flags & F_HHR) ? true : (flags & F_NOHHR) ? false : r.b(0.3);
        if (f->name == "FixedRankE") canhhr = false;
        if (h && !canhhr) { if (flags & F_HHR) continue; h = false; }
        if (h) { f->hhr = true; f->M->SetHasHHR(true); f->name += "/HHR"; f->normVT = true; if (!f->isoVT) f->linVT = f->invVT = f->tranH = false; }
        return f;
    }
    abort();
}
FP mkprod(std::vector<FP> &&ty, const std::vector<int> &mu) { return FP(new PrFix(std::move(ty), mu)); }
FP mktx(Rng &r, Fix **in, Variable **root) { TxFix *t = new TxFix(r); *in = t->in.get(); *root = &t->root; return FP(t); }
static Variable mkpoint1(Rng &r, Fix &F, double &cond) {
    int k = r.i(0, 3); cond = 1;
    if (k == 0) { genrandseed((unsigned)r.next()); cond = 30; return F.M->RandominManifold(); }
    Variable x = F.pt(r, cond);
    if (k == 1) return x;
    int steps = r.i(1, 3);
    for (int i = 0; i < steps; i++) {
        Vector v = F.W(x, F.step(r, x, r.pickd({0.01, 0.3, 0.8}))); Variable y(x); F.M->Retraction(x, v, &y); x = y;
    }
    cond = std::max(cond, 30.0);
    return x;
}
// points whose own conditioning leaves room for a meaningful comparison
Variable mkpoint(Rng &r, Fix &F, double &cond) {
    for (int t = 0; t < 100; t++) { Variable x = mkpoint1(r, F, cond); double c = F.condition(x); cond = std::max(cond, c); if (c <= 1e4) return x; }
    return F.pt(r, cond);
}
TestProblem::TestProblem(Rng &r, Fix *f, const Variable &x, bool q) : F(f) {
    V z = f->emb(x); size_t N = z.size(); double s = std::max(vn(z), 1e-300); A.resize(N); for (auto &t : A) t = r.n() / s / std::sqrt((double)N);
    int k = 3; for (int i = 0; i < k; i++) { V b(N); for (auto &t : b) t = r.n() / s / std::sqrt((double)N); B.push_back(b); }
    c = q ? r.u() / s / s / s / s : 0; Domain = f->M;
}
// F = <A,z> + 1/2 sum +-<b_i,z>^2 + 1/2 <z,z>/s^2-free part via c |z|^4 / 4
double TestProblem::F0(const V &z) const { double t = vdot(A, z); for (size_t i = 0; i < B.size(); i++) { double d = vdot(B[i], z); t += (i % 2 ? -0.5 : 0.5) * d * d; } double q = vdot(z, z); return t + c * q * q / 4; }
V TestProblem::G(const V &z) const { V g = A; for (size_t i = 0; i < B.size(); i++) { double d = vdot(B[i], z) * (i % 2 ? -1 : 1); for (size_t j = 0; j < g.size(); j++) g[j] += d * B[i][j]; } double q = c * vdot(z, z); for (size_t j = 0; j < g.size(); j++) g[j] += q * z[j]; return g; }
V TestProblem::HV(const V &z, const V &d) const { V g(z.size(), 0.0); for (size_t i = 0; i < B.size(); i++) { double e = vdot(B[i], d) * (i % 2 ? -1 : 1); for (size_t j = 0; j < g.size(); j++) g[j] += e * B[i][j]; } double q = c * vdot(z, z), p = 2 * c * vdot(z, d); for (size_t j = 0; j < g.size(); j++) g[j] += q * d[j] + p * z[j]; return g; }
realdp TestProblem::f(const Variable &x) const { nf++; return F0(F->emb(x)); }
Vector &TestProblem::EucGrad(const Variable &x, Vector *result) const { ng++; *result = F->egrad(x, G(F->emb(x))); return *result; }
Vector &TestProblem::EucHessianEta(const Variable &x, const Vector &etax, Vector *result) const { nh++; V z = F->emb(x); *result = F->ehess(x, etax, G(z), HV(z, F->demb(x, etax))); return *result; }
} // namespace vh
