// U04: what the library prints about elements, manifolds and derivatives is what it computes.
#include "prob.h"
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
#include <iostream>
#include <set>
using namespace vh; using namespace ROPTLIB;
namespace {
// everything the library writes to standard output while fn runs
template <class T> std::string capture(T fn) {
    fflush(stdout); std::cout.flush(); int sv = dup(1), fd = memfd_create("u04", 0); if (sv < 0 || fd < 0) abort();
    dup2(fd, 1); fn(); fflush(stdout); std::cout.flush(); dup2(sv, 1); close(sv);
    std::string s; lseek(fd, 0, SEEK_SET); char b[65536]; ssize_t k; while ((k = read(fd, b, sizeof b)) > 0) s.append(b, k); close(fd); return s;
}
std::vector<std::string> lines(const std::string &s) { std::vector<std::string> o; size_t p = 0; while (p <= s.size()) { size_t q = s.find('\n', p); if (q == std::string::npos) q = s.size(); o.push_back(s.substr(p, q - p)); p = q + 1; } return o; }
bool numeric(const std::string &l, V *out) {     // a line made of numbers only ("a", "a + b*i", separated by tabs)
    const char *c = l.c_str(); bool any = false; V v;
    while (*c) { if (*c == ' ' || *c == '\t' || *c == '+' || *c == '*' || (*c == 'i' && c > l.c_str() && c[-1] == '*')) { c++; continue; } char *e; double d = strtod(c, &e); if (e == c) return false; v.push_back(d); c = e; any = true; }
    if (any && out) out->insert(out->end(), v.begin(), v.end()); return any;
}
// the numbers of the printed element called name (all components, without its temporary data)
bool block(const std::vector<std::string> &L, const std::string &name, V &out, int which = 0) {
    out.clear(); size_t i = 0; for (; i < L.size(); i++) if (L[i].compare(0, name.size() + 2, name + ":(") == 0 && which-- == 0) break;
    if (i == L.size()) return false; int skip = 0;
    for (i++; i < L.size(); i++) {
        const std::string &l = L[i]; if (l.find("Temp data in") != std::string::npos) { if (l.find("Temp data in " + name) != std::string::npos) break; skip = 1; continue; }
        if (l.find("=end of output:") != std::string::npos) { skip = 0; continue; } if (skip) continue;
        if (numeric(l, &out)) continue; if (l.empty() || l.compare(0, 4, "Type") == 0 || l.compare(0, 7, "number ") == 0 || l.compare(0, 4, "====") == 0) continue; break;
    }
    return true;
}
bool value(const std::string &s, const std::string &key, double &v, int which = 0) { size_t p = 0; for (;; which--) { p = s.find(key, p); if (p == std::string::npos) return false; p += key.size(); if (!which) break; } char *e; const char *c = s.c_str() + p; while (*c == ' ') c++; v = strtod(c, &e); return e != c; }
// entries in the order in which matrices are printed (rows first, slice by slice)
void shown(const Element &e, V &o) {
    if (e.Getnumoftypes() != 0) { for (int i = 0; i < e.Getnumofelements(); i++) shown(e.GetElement(i), o); return; }
    const double *p = e.ObtainReadData(); int w = e.Getiscomplex() ? 2 : 1, m = e.Getsize()[0] / w, n = e.Getsize()[1], k = e.Getls() > 2 ? e.Getsize()[2] : 1;
    for (int s = 0; s < k; s++) for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) for (int c = 0; c < w; c++) o.push_back(p[(size_t)s * w * m * n + (size_t)j * w * m + i * w + c]);
}
double rel(const V &a, const V &b) { if (a.size() != b.size()) return HUGE_VAL; double d = 0, n = 0; for (size_t i = 0; i < a.size(); i++) { d += (a[i] - b[i]) * (a[i] - b[i]); n = std::max(n, std::max(std::fabs(a[i]), std::fabs(b[i]))); } return n == 0 ? 0 : std::sqrt(d) / n; }
double entry(const V &a, const V &b) { if (a.size() != b.size()) return HUGE_VAL; double w = 0; for (size_t i = 0; i < a.size(); i++) { double d = std::fabs(a[i] - b[i]), n = std::max(std::fabs(a[i]), std::fabs(b[i])); if (d > 0) w = std::max(w, d / n); } return w; }
void judge(bool ok, const char *what) { obs((std::string(ok ? "agreement: " : "disagreement: ") + what).c_str()); if (!ok && getenv("U04DBG")) fail((std::string("dbg ") + what).c_str(), "dbg"); }
}
VH_SUITE(u04) {
    int what = r.i(0, 3);
    if (what == 0) {                     // printed elements
        bool cx = r.b(); auto one = [&](int ls, bool data = true) { int m = r.b(0.2) ? 1 : r.i(1, 6), n = ls > 1 ? (r.b(0.2) ? 1 : r.i(1, 5)) : 1, k = ls > 2 ? r.i(1, 4) : 1; Element e = cx ? Element(m, n, k, "complex") : Element(m, n, k); if (!data) return e; e.ObtainWriteEntireData(); double *p = e.ObtainWritePartialData(); for (int i = 0; i < e.Getlength(); i++) p[i] = r.n() * std::pow(10.0, r.i(-12, 12)); if (r.b(0.1)) e.SetToZeros(); return e; };
        int nt = r.b(0.3) ? r.i(1, 3) : 0; Element e = one(r.i(1, 3));
        if (nt) { cx = r.b(); Element t1 = one(r.i(1, 2), false); cx = r.b(); Element t2 = one(r.i(1, 2), false); Element z(2, &t1, (integer)r.i(1, 2), &t2, (integer)r.i(1, 2)); z.RandGaussian(); e = z; }
        config("print %s", nt ? "product" : cx ? "complex" : "real"); detail("%d x %d x %d", (int)e.Getrow(), (int)e.Getcol(), (int)e.Getnum());
        std::map<std::string, V> fs; int nf = r.i(0, 2); for (int i = 0; i < nf; i++) { cx = r.b(); Element f = one(r.i(1, 2)); std::string nm = "fld" + std::to_string(i); V o; shown(f, o); fs[nm] = o; e.AddToFields(nm, f); }
        V w, g; shown(e, w); V b0 = raw(e); bool only = r.b(); std::string s = capture([&] { e.Print("thing", only); }); auto L = lines(s);
        if (!expect(block(L, "thing", g), "U04.print", "nothing printed")) return; expect(g.size() == w.size(), "U04.print.count", "%d entries printed, %d exist", (int)g.size(), (int)w.size()); small("U04.print", entry(g, w), 1.1e-10, "printed entries"); obs("printed elements"); if (nt) obs("printed products");
        for (auto &f : fs) { bool there = block(L, f.first, g); if (!expect(there == !only, "U04.print.fields", "%s %s", f.first.c_str(), there ? "printed although only the main data was asked for" : "not printed")) break; if (there) { small("U04.print.fields", entry(g, f.second), 1.1e-10, "printed temporary data"); obs("printed fields"); } }
        expect(raw(e) == b0, "U04.print.args", "printing changed the element");
        std::string z = capture([&] { e.PrintSize("thing", only); }); int m = -1, n = -1, k = -1; size_t p = z.find("thing:("); if (p == std::string::npos || sscanf(z.c_str() + p, "thing:(%d, %d, %d)", &m, &n, &k) != 3) fail("U04.size", "no size printed"); else expect(m == e.Getrow() && n == e.Getcol() && k == e.Getnum(), "U04.size", "%d %d %d printed", m, n, k);
        expect((int)e.GetSizeofFields() == nf, "U04.names.count", "%d fields", (int)e.GetSizeofFields()); if (nf) { std::vector<std::string> nm(nf); e.ObtainTempNames(nm.data()); std::set<std::string> S(nm.begin(), nm.end()); bool ok = (int)S.size() == nf; for (auto &f : fs) ok &= S.count(f.first) == 1; expect(ok, "U04.names", "names of the temporary data"); obs("names of temporary data"); }
        if (!nt) { std::string q = capture([&] { e.SmartSpace::Print("thing"); }); obs("raw prints"); V h; for (auto &l : lines(q)) numeric(l, &h); expect(h.size() == w.size(), "U04.raw", "%d entries printed, %d exist", (int)h.size(), (int)w.size()); V a = b0, c = h; std::sort(a.begin(), a.end()); std::sort(c.begin(), c.end()); small("U04.raw", entry(a, c), 1.1e-10, "entries printed by the base class"); }
        return;
    }
    if (what == 1) {                     // the derivative test of a problem
        auto usable = [](Fix &f) { return f.name.find("FixedRankE") == std::string::npos; };
        PFP q; int kd; do { do kd = r.i(0, PK_COUNT - 1); while (kd == PK_WEIGHT || kd == PK_SPARSE || kd == PK_TXRQ); q = mkproblem(r, kd, usable); } while (!q->smooth || !q->hess || q->name == "SphereTxRQ"); PF &p = *q; double c = 1; Variable x = p.pt(r, c); config("derivative test %s on %s", p.name.c_str(), p.fix->name.c_str()); detail("%s", p.det.c_str());
        V x0 = raw(x); Problem &P = *p.P; std::string s = capture([&] { P.CheckGradHessian(x); }); expect(raw(x) == x0, "U04.args", "the point was changed");
        Manifold *M = p.M; P.SetUseGrad(true); P.SetUseHess(true); double fx = P.f(x), pf; Vector g(M->GetEMPTY()), xi(g), Hv(g); P.Grad(x, &g); M->Projection(x, g, &xi); double ng = std::sqrt(M->Metric(x, xi, xi)); if (!(ng > 1e-8 * (1 + std::fabs(fx)))) { obs("critical points skipped"); return; }
        expect(value(s, "f:", pf) && std::fabs(pf - fx) <= 1e-6 + 1e-9 * std::fabs(fx), "U04.cost", "cost %g printed, %g computed", pf, fx);
        M->ScalarTimesVector(x, 100 / ng, xi, &xi); auto L = lines(s); int seen = 0; double best = HUGE_VAL;
        for (auto &l : L) { int i; double e, a, b; if (sscanf(l.c_str(), "i:%d,|eta|:%lf,(fy-fx)/<gfx,eta>:%lf,(fy-fx-<gfx,eta>)/<0.5 eta, Hessian eta>:%lf", &i, &e, &a, &b) != 4) continue;
            Variable y(x); Vector v(xi); M->ScalarTimesVector(x, std::pow(0.5, i), xi, &v); double len = std::sqrt(M->Metric(x, v, v)); small("U04.length", std::fabs(e - len) / len, 1e-3, "length of the step"); seen++;
            if (len > 1) continue; M->Retraction(x, v, &y); double fy = P.f(y), gd = M->Metric(x, g, v); P.HessianEta(x, v, &Hv); double hh = M->Metric(x, v, Hv) / 2, no = 1e-11 * (std::fabs(fx) + std::fabs(fy) + std::fabs(gd)) ;
            double ra = (fy - fx) / gd, rb = (fy - fx - gd) / hh; small("U04.first", std::fabs(a - ra) / (std::fabs(ra) + no / std::fabs(gd)), 2e-3 + no / std::fabs(gd), "first-order ratio"); if (std::fabs(rb) < 1e6 && no < 1e-4 * std::fabs(hh)) { small("U04.second", std::fabs(b - rb) / (std::fabs(rb) + 1e-3), 2e-3 + no / std::fabs(hh), "second-order ratio"); obs("second-order ratios"); }
            best = std::min(best, std::fabs(a - 1)); obs("first-order ratios"); }
        expect(seen == 35, "U04.steps", "%d steps reported", seen); judge(best < 0.02, "derivative tests without a ratio near one"); obs("derivative tests"); return;
    }
    // the tests of a manifold
    FP f = mkfix(r, F_NOFRE | F_NOTX); Fix &F = *f; Manifold *M = F.M; double c = 1; Variable x = F.pt(r, c); for (int t = 0; t < 40 && F.condition(x) > 5; t++) x = F.pt(r, c); config("manifold tests %s", F.name.c_str()); detail("%s", F.det.c_str()); if (F.condition(x) > 20) { obs("ill-conditioned points skipped"); return; }
    V x0 = raw(x); bool in = M->GetIsIntrinsic(), hh = M->GetHasHHR(); double a = 0, b = 0; V u, v; sig(F.name);
    auto run = [&](const char *nm, std::function<void()> fn) { std::string s = capture(fn); expect(raw(x) == x0, "U04.args", "%s changed the point", nm); expect(M->GetIsIntrinsic() == in && M->GetHasHHR() == hh, "U04.mode", "%s changed the representation", nm); expect(s.size() > 40, "U04.silent", "%s prints nothing", nm); obs(nm); return s; };
    { std::string s = run("CheckParams", [&] { M->CheckParams(); }); if (F.name.compare(0, 7, "Product") && value(s, "IsIntrApproach:", a)) expect(a == in, "U04.params", "IsIntrApproach %g", a); if (F.name.compare(0, 7, "Product") && value(s, "IntrinsicDim  :", a)) expect(a == M->GetIntrDim(), "U04.params", "IntrinsicDim %g", a); if (F.name.compare(0, 7, "Product") && value(s, "ExtrinsicDim  :", a)) expect(a == M->GetExtrDim(), "U04.params", "ExtrinsicDim %g", a); if (F.name.compare(0, 7, "Product") && value(s, "HasHHR        :", a)) expect(a == hh, "U04.params", "HasHHR %g", a); }
    if (F.intr && in) { auto s = run("CheckIntrExtr", [&] { M->CheckIntrExtr(x); }); auto L = lines(s); bool ok = value(s, "extr inp:", a) && value(s, "intr inp:", b); expect(ok, "U04.intr.shown", "no inner products"); if (block(L, "exetax1", u) && block(L, "exetax2", v)) small("U04.intr", rel(u, v), 1e-6, "extrinsic representations"); else fail("U04.intr.shown", "no extrinsic representations"); if (block(L, "inetax1", u) && block(L, "inetax2", v)) { small("U04.intr", rel(u, v), 1e-6, "intrinsic representations"); if (F.name.find("SPD/PS3") == std::string::npos) small("U04.intr.norm", std::fabs(b - vdot(u, u)) / b, 1e-4, "intrinsic inner product"); } else fail("U04.intr.shown", "no intrinsic representations"); }
    { auto s = run("CheckRetraction", [&] { M->CheckRetraction(x); }); auto L = lines(s); if (block(L, "etax:", u) && block(L, "FDetax:", v)) judge(rel(u, v) < 1e-2, F.name.find("SymFixedRankQ") != std::string::npos ? "retractions (quotient)" : "retractions"); else fail("U04.retr.shown", "no vectors"); if (block(L, "x:", u)) { V w; shown(x, w); small("U04.point", entry(u, w), 1.1e-10, "the point printed"); } else fail("U04.retr.shown", "no point"); }
    if (F.diffGen && !F.diffProj) { auto s = run("CheckDiffRetraction", [&] { M->CheckDiffRetraction(x, false); }); auto L = lines(s); if (block(L, "zetax:", u) && block(L, "FDzetax:", v)) judge(rel(u, v) < 3e-2, "differentiated retractions"); else fail("U04.diff.shown", "no vectors"); }
    if (F.diffSame) { auto s = run("CheckDiffRetraction along the step", [&] { M->CheckDiffRetraction(x, true); }); auto L = lines(s); if (block(L, "zetax:", u) && block(L, "FDzetax:", v)) judge(rel(u, v) < 3e-2, "differentiated retractions along the step"); else fail("U04.diff.shown", "no vectors"); }
    if (F.hhr && F.diffSame) { auto s = run("CheckLockingCondition", [&] { M->CheckLockingCondition(x); }); auto L = lines(s); if (block(L, "Beta DiffRetraction zetax:", u) && block(L, "Vector Transport zetax:", v)) judge(rel(u, v) < 1e-5, "locking condition"); else fail("U04.lock.shown", "no vectors"); if (value(s, "|T_{etax} etax|:", a) && value(s, "|xix| / |T_{etax} xix|:", b)) judge(std::fabs(a - b) < 1e-4 * b, "locking factor"); }
    if (F.cotan) { auto s = run("CheckcoTangentVector", [&] { M->CheckcoTangentVector(x); }); if (value(s, "xix>:", a) && value(s, "[xix]:", b)) judge(std::fabs(a - b) <= 1e-4 * (1 + std::fabs(a)), "cotangent vectors"); else fail("U04.cotan.shown", "no numbers"); }
    if (F.isoVT || F.normVT) { auto s = run("CheckIsometryofVectorTransport", [&] { M->CheckIsometryofVectorTransport(x); }); if (value(s, "Before vector transport:", a) && value(s, "After vector transport:", b)) judge(std::fabs(a - b) <= 1e-4 * a && a > 0, "isometry"); else fail("U04.iso.shown", "no numbers"); }
    if (F.invVT) {
        if (F.isoVT || F.normVT) { auto s = run("CheckIsometryofInvVectorTransport", [&] { M->CheckIsometryofInvVectorTransport(x); }); if (value(s, "Before inverse vector transport:", a) && value(s, "After inverse vector transport:", b)) judge(std::fabs(a - b) <= 1e-4 * a && a > 0, "isometry of the inverse"); else fail("U04.iso.shown", "no numbers"); }
        auto s = run("CheckVecTranComposeInverseVecTran", [&] { M->CheckVecTranComposeInverseVecTran(x); }); auto L = lines(s); if (block(L, "xix:", u) && block(L, "T^{-1} ciric T xix:", v)) judge(rel(u, v) < 1e-5, "composition"); else fail("U04.comp.shown", "no vectors");
    }
    if (F.tranH && F.invVT) { auto s = run("CheckTranHInvTran", [&] { M->CheckTranHInvTran(x); }); auto L = lines(s); if (in) { if (block(L, "Hx before:", u) && block(L, "Hx after:", v)) judge(rel(u, v) < 1e-5, "transported operators"); else fail("U04.tranh.shown", "no operators"); } else if (block(L, "zetay:", u) && block(L, "Hx zetay:", v)) judge(rel(u, v) < 1e-5, "transported operators"); else fail("U04.tranh.shown", "no vectors"); }
    if (F.tranH) { auto s = run("CheckHaddScaledRank1OPE", [&] { M->CheckHaddScaledRank1OPE(x); }); auto L = lines(s); V e, w; if (block(L, "etax:", e) && block(L, "xix:", w) && block(L, "Hx before:", u) && block(L, "Hx after:", v)) { if (in) { V k(u); size_t n = e.size(); bool fit = u.size() == n * n; if (fit) { for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) k[i * n + j] += e[i] * w[j]; judge(rel(k, v) < 1e-5, "rank-one updates"); } } } else fail("U04.rank1.shown", "no operators"); }
}
