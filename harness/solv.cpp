#include "solv.h"
#include "Others/Timer.h"
#include <sys/mman.h>
#include <fcntl.h>
using namespace ROPTLIB;
using namespace vh;
// ================================================================== S01: truthful reports
struct RepMon : MonB {
    using MonB::MonB; std::vector<Variable> its; V rec_f, rec_g, steps; bool first = true;
    void preStop(const View &v) { if (first) { its.push_back(*v.x1); first = false; } }
    void postUpd(const View &v) { its.push_back(v.ls ? *v.x2 : *v.x1); if (v.ls) steps.push_back(*v.step); }
    void accept(const View &v) { its.back() = *v.x2; }
};
VH_SUITE(s01) {
    auto q = mkscn(r); Scn &S = *q; if (S.par["Verbose"] < 2 && r.b(0.7)) S.par["Verbose"] = 2; if (r.b(0.1)) S.pp->nanat = r.i(2, 30);
    RepMon m(S, r); Solver o = start(S, &m, S.par); o.s->Run(); SolversSM &s = *o.s;
    Variable x = s.GetXopt(), y = S.strip(x); double c = scond(*S.F, y); int it = s.GetIter(); obs("iterations", it);
    for (double t : m.steps) c = std::max(c, std::fabs(t) * 1e-5 * scond(*S.F, y));   // a huge step amplifies the rounding errors of a small direction
    if (S.F->name.find("extr/HHR") != std::string::npos) c *= 1e4;   // extrinsic coordinates under the locking condition amplify rounding from step to step
    if (!(c < 1e6)) { obs("ill-conditioned end point"); return; }
    if ((int)m.its.size() == it + 2) m.its.pop_back();
    expect((int)m.its.size() == it + 1, "S01.iter", "reported %d iterations, observed %d", it, (int)m.its.size() - 1);
    if (std::fabs(S.P->f(y)) > 1e8 * (1 + std::fabs(m.fresh_f(S.x0)))) { obs("diverged, unbounded cost"); return; }
    small("S01.feasible", S.F->feas(y), 1e-9 * c, "returned point on the manifold");
    double f = S.P->f(y), fs = std::fabs(f) + std::fabs(m.fresh_f(S.x0)) * 1e-3 + 1e-300;
    small("S01.cost", std::fabs(f - s.Getfinalfun()) / fs, 1e-11 * c, "reported cost is that of the returned point");
    Vector g = m.fresh_g(x, &y); double ng = m.nm(y, g); Variable y0(S.x0); Vector g0 = m.fresh_g(S.x0, &y0); double ng0 = m.nm(y0, g0), gs = ng + ng0 * 1e-3 + std::fabs(f) * 1e-8;
    small("S01.gradnorm", std::fabs(ng - s.Getnormgf()) / (gs + 1e-300), 1e-8 * c, "reported gradient norm is that of the returned point");
    if (ng0 > 0) small("S01.gradratio", std::fabs(s.Getnormgfgf0() - ng / ng0) / (gs / ng0), 1e-8 * c, "reported gradient ratio");
    obs("reports compared");
    expect(s.GetComTime() >= 0 && s.GetComTime() < 1000, "S01.time", "reported time %g", s.GetComTime());
    // counts
    expect(s.Getnf() == S.pp->nf, "S01.count.nf", "reported %d cost evaluations, made %ld", s.Getnf(), S.pp->nf);
    expect(s.Getng() == S.pp->ng, "S01.count.ng", "reported %d gradient evaluations, made %ld", s.Getng(), S.pp->ng);
    expect(s.GetnR() == S.pm->c.R, "S01.count.nR", "reported %d retractions, made %ld", s.GetnR(), S.pm->c.R);
    long tr = S.pm->c.VT + S.pm->c.IVT + S.pm->c.DR + S.pm->c.CT;
    expect(s.GetnV() + s.GetnVp() == tr, "S01.count.nV", "reported %d+%d transports, made %ld", s.GetnV(), s.GetnVp(), tr);
    if (S.kind == K_RNEWTON || S.kind == K_RTRNEWTON) expect(s.GetnH() == S.pp->nh, "S01.count.nH", "reported %d Hessian actions, made %ld", s.GetnH(), S.pp->nh);
    obs("evaluation counts compared", 5);
    // series
    if (S.par["Verbose"] >= 2) {
        if (!expect(s.GetlengthSeries() == it + 1, "S01.series.length", "series of %d entries for %d iterations", s.GetlengthSeries(), it)) return;
        V fsr = raw(s.GetfunSeries()), gsr = raw(s.GetgradSeries()), ts = raw(s.GettimeSeries());
        expect((int)fsr.size() >= it + 1 && (int)gsr.size() >= it + 1 && (int)ts.size() >= it + 1, "S01.series.length", "series shorter than reported");
        expect(raw(m.its[0]) == S.x0raw, "S01.start", "the run did not start at the initial point");
        for (int i = 0; i <= it; i++) {
            Variable z(m.its[i]); double ci = std::max(c, scond(*S.F, S.strip(z))); if (!(ci < 1e6)) continue; Vector gi = m.fresh_g(m.its[i], &z); double fi = S.P->f(z), ni = m.nm(z, gi);
            small("S01.series.cost", std::fabs(fi - fsr[i]) / (std::fabs(fi) + fs), 1e-11 * ci, "cost series equals the cost of the iterate");
            small("S01.series.grad", std::fabs(ni - gsr[i]) / (ni + ng0 * 1e-3 + std::fabs(fi) * 1e-8 + 1e-300), 1e-8 * ci, "gradient series equals the gradient norm of the iterate");
            if (i) expect(ts[i] >= ts[i - 1], "S01.series.time", "time series decreases at %d", i);
        }
        expect(ts[0] >= 0 && ts[it] <= s.GetComTime() + 1e-9, "S01.series.time", "time series outside the run: %g %g %g", ts[0], ts[it], s.GetComTime());
        obs("series entries", it + 1);
        if (!isTR(S.kind)) { V as = raw(s.GetSolverInfo().Field("acceptedstepsize")); for (int i = 0; i < (int)m.steps.size() && i < it; i++) expect(as[i + 1] == m.steps[i], "S01.series.step", "step series entry %d is %g, step taken %g", i + 1, as[i + 1], m.steps[i]); }
    }
    sample("%s: %d iterations, f=%.6g |gf|=%.3g nf=%d ng=%d", curconfig().c_str(), it, s.Getfinalfun(), s.Getnormgf(), s.Getnf(), s.Getng());
}

// ================================================================== S02: line search conditions
struct LsMon : MonB {
    using MonB::MonB; std::vector<V> xs; V f, g; bool fixedstep = false; double slope0 = 0, init = 0; std::vector<std::pair<double, double>> ev; std::vector<double> sl, es; V xprev; int n = 0; bool ill = false; double ff0 = 0;
    Variable ox{1}; Vector oe{1}, og{1}, bs{1}, by{1}; double oslope = 0; std::deque<double> bbs; bool bbok = true;
    // first trial step: the documented formula of the chosen type, with the documented safeguards; several values where the definition leaves room
    void firstStep(const View &v, double c) {
        SolversSMLS &L = *v.ls; double got = *v.initlen, tol = 1e-9, quad = 0; std::vector<double> want; int k = (int)f.size() - 1;
        if (k == 0) want.push_back(L.Initstepsize);
        else {
            quad = 2 * (f[k] - f[k - 1]) / oslope; tol = 1e-9 + 1e-13 * (std::fabs(f[k]) + std::fabs(f[k - 1])) / (std::fabs(f[k] - f[k - 1]) + 1e-300);
            switch (L.InitSteptype) {
            case LSSM_ONESTEP: want.push_back(1); break;
            case LSSM_QUADINT: want.push_back(quad); break;
            case LSSM_QUADINTMOD: want.push_back(std::min(1.0, 1.01 * quad)); break;
            case LSSM_BBSTEP: case LSSM_EXTRBBSTEP: {
                if (!bbok || (L.InitSteptype == LSSM_EXTRBBSTEP && S.nostrip)) { bbok = false; return; }
                const Variable &x = *v.x1; Vector s(*v.eta1), y(*v.eta1); bool ext = L.InitSteptype == LSSM_EXTRBBSTEP;
                if (!ext) { s = bs; y = lc(x, 1, *v.gf1, -1, by); }
                else { s = lc(x, 1, x, -1, ox); Vector a(og), b(*v.gf1); if (M->GetIsIntrinsic()) { a = M->GetEMPTYEXTR(); b = a; M->ObtainExtr(ox, og, &a); M->ObtainExtr(x, *v.gf1, &b); } y = lc(x, 1, b, -1, a); }
                double ss = met(x, s, s), sy = met(x, s, y), yy = met(x, y, y); if (ext) { double q = met(ox, s, s); if (std::fabs(q - ss) > 1e-9 * ss) { bbok = false; return; } }
                double gn = *v.ngf1, yn = std::sqrt(yy), k1 = std::sqrt(ss) * yn / (std::fabs(sy) + 1e-300), k2 = (gn + nm(ox, og)) / (yn + 1e-300); if (!(k1 < 1e4) || !(k2 < 1e4) || !(c < 1e4)) { bbok = false; return; }
                tol = std::max(tol, 1e-11 * k1 * k2 * c); double b1 = ss / sy, b2 = sy / yy; if (std::fabs(b2 - EPS) < 1e-3 * EPS) { bbok = false; return; }
                bbs.push_front(b2 < EPS ? L.Initstepsize / gn : b2); while ((int)bbs.size() > L.Num_pre_BB) bbs.pop_back();
                if (L.BBratio == 0) want.push_back(b1); else if (L.BBratio == 1 && L.Num_pre_BB == 0) want.push_back(b2);
                else { double mn = b2; for (double b : bbs) mn = std::min(mn, b); double q = mn / b1; if (q < L.BBratio + 1e-6) want.push_back(mn); if (q > L.BBratio - 1e-6) want.push_back(b1); }
                obs(L.Num_pre_BB > 0 ? "first steps by adaptive Barzilai-Borwein" : "first steps by Barzilai-Borwein"); break; }
            default: return;
            }
            std::vector<double> w2; for (double w : want) { if (w < quad / 100 * (1 + tol)) w2.push_back(quad); if (!(w < quad / 100 * (1 - tol))) w2.push_back(w); }
            want.clear(); for (double w : w2) { if (!(w >= EPS * (1 + tol))) want.push_back(L.Initstepsize / *v.ngf1); if (w >= EPS * (1 - tol)) want.push_back(w); }
        }
        double best = 1e300; for (double w : want) { w = std::min<double>(w, L.Maxstepsize); best = std::min(best, std::fabs(w - got) / (std::fabs(w) + 1e-300)); }
        if (!(tol < 1e-3)) return;
        obs("first steps compared"); obs(("first step type " + str((int)L.InitSteptype)).c_str());
        expect(best <= tol, "S02.firststep", "first trial step %.9g, the formula of type %d gives %.9g (iteration %d)", got, (int)L.InitSteptype, want.empty() ? 0.0 : want.back(), k);
    }
    void postDir(const View &v) {
        expect(xprev.empty() || raw(*v.x1) == xprev, "S02.chain", "iterate %d is not the retraction of the accepted step", v.iter);
        if (!f.empty() && v.ls->InitSteptype == LSSM_BBSTEP && !ill) { bs = *v.eta1; by = *v.eta1; M->VectorTransport(ox, oe, *v.x1, oe, &bs); M->VectorTransport(ox, oe, *v.x1, og, &by); }    // here, while the points carry the data of the last retraction
        slope0 = met(*v.x1, *v.gf1, *v.eta1); ev.clear(); sl.clear(); es.clear(); fixedstep = *v.ngf1 / (*v.ngf0 + v.ls->Tolerance) < v.ls->Accuracy; f.push_back(*v.f1); g.push_back(*v.ngf1);
    }
    void eval(const View &v, double s, double val) { ev.push_back({s, val}); }
    void slope(const View &v, double d) { sl.push_back(d); if (!ev.empty()) { es.resize(ev.size(), NAN); es[ev.size() - 1] = d; } }
    // the sequence of trial steps: shrinking factors, no acceptable trial thrown away, bracketing, and the reasons for giving up
    void sequence(const View &v, double ref, double tol) {
        SolversSMLS &L = *v.ls; int N = ev.size(), ty = L.LineSearch_LS, st = v.lsst; es.resize(N, NAN); if (N == 0) return; double f1 = *v.f1, s0 = slope0, a = L.LS_alpha, mn = L.Minstepsize; if (ty == LSSM_INPUTFUN) ty = LSSM_ARMIJO;
        auto suff = [&](int i) { return ev[i].second <= (ty == LSSM_ARMIJO ? ref : f1) + a * ev[i].first * s0 - tol; };
        for (auto &e : ev) if (!std::isfinite(e.first) || !std::isfinite(e.second)) return;
        obs("trial sequences"); if (N > 1) obs("trial sequences with several steps");
        double r1 = L.LS_ratio1, r2 = L.LS_ratio2, last = ev[N - 1].first;
        if (ty == LSSM_ARMIJO) {
            for (int i = 0; i + 1 < N; i++) { expect(!suff(i), "S02.first", "trial %d (step %g) gives sufficient decrease and is thrown away", i, ev[i].first);
                double q = ev[i + 1].first / ev[i].first; bool good = r2 <= r1 ? std::fabs(q - r1) < 1e-12 * r1 : q >= r1 * (1 - 1e-12) && q <= r2 * (1 + 1e-12); expect(good, "S02.shrink", "step changed from %g to %g, factors are to be between %g and %g", ev[i].first, ev[i + 1].first, r1, r2); }
            if (st == LSSM_MINSTEPSIZE) { obs("gave up at the minimum"); expect(last * r1 <= mn * (1 + 1e-12), "S02.giveup", "gave up at step %g, the limit is %g", last, mn); }
        }
        if (ty == LSSM_WOLFE || ty == LSSM_STRONGWOLFE) {
            double tols = 1e-9 * std::fabs(s0);
            for (int i = 0; i + 1 < N; i++) expect(!(suff(i) && (ty == LSSM_WOLFE ? es[i] >= L.LS_beta * s0 + tols : std::fabs(es[i]) <= -L.LS_beta * s0 - tols)), "S02.first", "trial %d (step %g) satisfies both conditions and is thrown away", i, ev[i].first);
            double gap = 1e300; for (int i = 0; i < N; i++) { gap = std::min(gap, ev[i].first); for (int j = 0; j < i; j++) if (ev[i].first != ev[j].first) gap = std::min(gap, std::fabs(ev[i].first - ev[j].first)); }
            if (st == LSSM_NOCURVATURE) { obs("gave up on curvature"); expect(N >= 10 || gap <= mn * (1 + 1e-12), "S02.giveup", "gave up on curvature after %d trials at distance %g, limit %g", N, gap, mn); }
            if (st == LSSM_LSERROR) { obs("gave up after many trials"); expect(N >= 10, "S02.giveup", "gave up after %d trials", N); }
            if (st == LSSM_MINSTEPSIZE) { obs("gave up at the minimum"); double m = 1e300; for (auto &e : ev) m = std::min(m, e.first); expect(m <= mn * (1 + 1e-12), "S02.giveup", "gave up with smallest trial %g, the limit is %g", m, mn); }
            if (st == LSSM_MAXSTEPSIZE) expect(last >= L.Maxstepsize * (1 - 1e-12), "S02.giveup", "gave up with step %g, the limit is %g", last, L.Maxstepsize);
        }
        if (ty == LSSM_STRONGWOLFE && r1 < r2 && r2 < 1) {     // bracket of the second phase
            double p = 0, fp = f1, lo = 0, hi = 0, flo = 0; bool zoom = false; int last = st == LSSM_SUCCESS ? N : N - 1;
            for (int i = 0; i < last; i++) { double t = ev[i].first, ft = ev[i].second, d = es[i]; bool bad = ft > f1 + a * t * s0;
                if (!zoom) { if (bad || ft >= fp) { lo = p; flo = fp; hi = t; zoom = true; } else if (d >= 0) { lo = t; flo = ft; hi = p; zoom = true; } p = t; fp = ft; continue; }
                double q = (t - lo) / (hi - lo); if (!(std::fabs(hi - lo) > 1e-9 * (std::fabs(hi) + std::fabs(lo)))) break; obs("bracketed trials");
                expect(q >= std::min(r1, r2) - 1e-6 && q <= std::max(r1, r2) + 1e-6, "S02.bracket", "trial %g at fraction %g of the bracket from %g to %g (factors %g, %g)", t, q, lo, hi, r1, r2);
                if (bad || ft >= flo) hi = t; else { if (d * (hi - lo) >= 0) hi = lo; lo = t; flo = ft; } }
        }
    }
    void preUpd(const View &v) {
        if (ff0 == 0) ff0 = 1 + std::fabs(*v.f1);
        if (!finite(raw(*v.gf1)) || !std::isfinite(slope0) || slope0 == 0 || std::fabs(*v.f1) > 1e12 * ff0) { xprev.clear(); ill = true; return; }
        n++; obs("line searches"); SolversSMLS &L = *v.ls; double t = *v.step, f1 = *v.f1, f2 = *v.f2; double tol = 64 * EPS * (std::fabs(f1) + std::fabs(f2));
        Variable y(*v.x1); double c = cond(S.strip(*v.x2)); xprev = raw(*v.x2); if (!(c < 1e6)) ill = true;
        double en = nm(*v.x1, *v.eta1);
        if (!ill && L.LineSearch_LS != LSSM_INPUTFUN) firstStep(v, c);
        ox = *v.x1; oe = *v.eta2; og = *v.gf1; oslope = slope0;
        obs((std::string("status ") + str(v.lsst) + " search " + str(L.LineSearch_LS)).c_str());
        // consistency of the trial point, whatever the status
        { Vector e = sc(*v.x1, t, *v.eta1); small("S02.step", diff(*v.x1, e, *v.eta2), 1e-14, "step equals step size times direction"); Variable xc(*v.x1); /* a copy: retractions leave data at their first argument */ M->Retraction(xc, e, &y); small("S02.retraction", diff(*v.x1, y, *v.x2), 1e-12 * c, "new iterate is the retraction of the step"); }
        if (!ill) { double ff = fresh_f(*v.x2); small("S02.value", std::fabs(ff - f2) / (std::fabs(ff) + std::fabs(f1) * 1e-3 + (S.pname == "SPDKarcherMean" ? 1e-12 : 1e-300)), (S.pname == "SPDKarcherMean" ? 1e-6 : 1e-11) * c, "cost used is the cost at the new iterate");
            Variable z(*v.x2); Vector gg = fresh_g(*v.x2, &z); double s = nm(z, gg), d = nm(z, lc(z, 1, gg, -1, *v.gf2)); small("S02.gradient", d / (s + *v.ngf0 * 1e-3 + std::fabs(f2) * 1e-8 + 1e-300), 1e-8 * c, "gradient used is the gradient at the new iterate"); }
        expect(t > 0 || (t == 0 && v.lsst != LSSM_SUCCESS) || (L.LineSearch_LS == LSSM_EXACT && v.lsst != LSSM_SUCCESS), "S02.positive", "step size %g (status %d, search %d)", t, v.lsst, L.LineSearch_LS);
        if (L.LineSearch_LS != LSSM_INPUTFUN || !L.IsPureLSInput) {
            double top = L.LineSearch_LS == LSSM_INPUTFUN && !ev.empty() ? std::max(L.Maxstepsize, ev[0].first) : L.Maxstepsize;
            if (!fixedstep && !(L.LineSearch_LS == LSSM_EXACT && v.lsst != LSSM_SUCCESS)) expect(t <= top * (1 + 1e-12), "S02.maxstep", "accepted step %g exceeds the limit %g (status %d, search %d)", t, L.Maxstepsize, v.lsst, L.LineSearch_LS);
            if (v.lsst == LSSM_SUCCESS && !fixedstep && ev.size() > 1 && L.LineSearch_LS != LSSM_EXACT) expect(t >= std::min(L.Minstepsize, ev[0].first) * (L.LineSearch_LS == LSSM_WOLFE || L.LineSearch_LS == LSSM_STRONGWOLFE ? 0.01 : 1 - 1e-12), "S02.minstep", "accepted step %g below the limit %g (search %d, first trial %g)", t, L.Minstepsize, L.LineSearch_LS, ev[0].first);
        }
        if (fixedstep) { obs("fixed final steps"); double want = L.Finalstepsize > 0 ? L.Finalstepsize : *v.initlen; expect(t == want, "S02.finalstep", "final step %g instead of %g", t, want); return; }
        int w = 1; bool nonmono = false; int since = 0;   // since: iterations since the window was switched on (it fills one value per iteration)
        for (size_t i = 0; i + 1 < g.size(); i++) if (g[i + 1] / (*v.ngf0 + L.Tolerance) <= L.PreFunsAccuracy) nonmono = true; for (size_t i = 0; i + 1 < g.size(); i++) if (since || g[i + 1] / (*v.ngf0 + L.Tolerance) <= L.PreFunsAccuracy) since++;
        bool armijo = L.LineSearch_LS == LSSM_ARMIJO || (L.LineSearch_LS == LSSM_INPUTFUN && !L.IsPureLSInput);
        if (armijo && nonmono) w = L.Num_pre_funs;
        double ref = f1; for (int i = 0; i < w && i < (int)f.size(); i++) ref = std::max(ref, f[f.size() - 1 - i]);
        if (L.LineSearch_LS == LSSM_INPUTFUN && L.IsPureLSInput) { obs("user steps"); return; }
        if (w == 1 && *v.ngf1 > 1e-7 * (*v.ngf0)) expect(f2 <= f1 + tol + (L.LineSearch_LS == LSSM_EXACT ? L.LS_alpha * std::fabs(t) * *v.ngf1 : 0), v.lsst == LSSM_SUCCESS ? "S02.monotone" : "S02.monotone.failed", "cost increases from %.17g to %.17g (status %d, search %d, step %g)", f1, f2, v.lsst, L.LineSearch_LS, t);
        if (L.LineSearch_LS == LSSM_WOLFE && v.lsst == LSSM_NOCURVATURE) expect(f2 <= f1 + L.LS_alpha * t * slope0 + tol, "S02.armijo.failed", "step %g kept without sufficient decrease although one is known: decrease %.6g, required %.6g", t, f1 - f2, -L.LS_alpha * t * slope0);
        sequence(v, w == 1 || since > L.Num_pre_funs ? ref : f1, tol);
        if (v.lsst != LSSM_SUCCESS) return;
        obs("successful searches");
        if (armijo || L.LineSearch_LS == LSSM_WOLFE || L.LineSearch_LS == LSSM_STRONGWOLFE) { expect(f2 <= ref + L.LS_alpha * t * slope0 + tol, "S02.armijo", "decrease %.6g, required %.6g (window %d, step %g)", ref - f2, -L.LS_alpha * t * slope0, w, t); obs("sufficient decrease checked"); if (ref > f1) obs("nonmonotone window used"); }
        bool needslope = L.LineSearch_LS != LSSM_ARMIJO && L.LineSearch_LS != LSSM_INPUTFUN, hasslope = needslope || (armijo && L.LS_ratio2 <= L.LS_ratio1);
        if (!hasslope) return;
        double ns = *v.nslope; if (!std::isfinite(ns) && !(c < 1e6)) { obs("steps to degenerate points skipped"); return; }
        if (L.LineSearch_LS == LSSM_WOLFE) expect(ns >= L.LS_beta * slope0 - 1e-12 * std::fabs(slope0), "S02.wolfe", "slope %.6g, initial slope %.6g, beta %g", ns, slope0, L.LS_beta);
        if (L.LineSearch_LS == LSSM_STRONGWOLFE) expect(std::fabs(ns) <= -L.LS_beta * slope0 * (1 + 1e-12), "S02.strong", "slope %.6g, initial slope %.6g, beta %g", ns, slope0, L.LS_beta);
        if (L.LineSearch_LS == LSSM_EXACT) {
            double last = ev.size() > 1 ? std::fabs(ev[ev.size() - 1].first - ev[ev.size() - 2].first) : 0;
            expect(std::fabs(ns) <= 1e-6 * std::fabs(slope0) * (1 + 1e-9) || sl.size() >= 20 || last < 2e-5 / L.LS_ratio1 || (ev.size() == 1 && ev[0].first < 2e-5), "S02.exact", "slope %.6g of initial %.6g after %d evaluations, last move %.3g", ns, slope0, (int)ev.size(), last);
        }
        if (ill || c > 1e4) return;
        // slope against differences of the real cost along the real retraction
        auto phi = [&](double u) { Variable z(*v.x1), xc(*v.x1); Vector e = sc(xc, u, *v.eta1); M->Retraction(xc, e, &z); return fresh_f(z); };
        double h = std::min(t * 0.1, 3e-3 * std::max(1.0, vn(raw(*v.x1)) * 0) / std::max(en, 1e-300)); auto d4 = [&](double hh) { return (8 * (phi(t + hh) - phi(t - hh)) - (phi(t + 2 * hh) - phi(t - 2 * hh))) / (12 * hh); };
        double a = d4(h), b = d4(h / 2), err = 10 * std::fabs(a - b) + 200 * EPS * (std::fabs(f1) + std::fabs(f2)) / h; double sc_ = std::fabs(slope0) + *v.ngf0 * en * 1e-3;
        if (!(err < 0.05 * sc_)) { obs("slope not measurable"); return; }
        obs("slopes compared"); small("S02.slope", std::max(0.0, std::fabs(ns - b) - err) / (sc_ + 1e-300), 1e-3 * std::max(c, 1.0), "slope at the accepted step is the derivative of the cost along the retraction");
        if (L.LineSearch_LS == LSSM_WOLFE) expect(b >= L.LS_beta * slope0 - err - 1e-3 * c * sc_, "S02.wolfe", "measured slope %.6g, initial %.6g, beta %g", b, slope0, L.LS_beta);
        if (L.LineSearch_LS == LSSM_STRONGWOLFE) expect(std::fabs(b) <= -L.LS_beta * slope0 + err + 1e-3 * c * sc_, "S02.strong", "measured slope %.6g, initial %.6g, beta %g", b, slope0, L.LS_beta);
    }
};
static double g_userstep = 1;
static realdp userls(integer, const Variable &, const Vector &, realdp s, realdp, const Problem *, const Solvers *) { return g_userstep; }
VH_SUITE(s02) {
    auto q = mkscn(r, r.i(0, K_LRBFGS), r.b(0.7) ? W_LSCOND : 0); Scn &S = *q; LsMon m(S, r); if (r.b(0.5)) S.par["Accuracy"] = 0;
    if (r.b(0.05)) { S.par["LineSearch_LS"] = LSSM_INPUTFUN; g_userstep = r.pickd({1, 0.1, 1e-3, 1e-20}); S.par["IsPureLSInput"] = r.i(0, 1); }
    Solver o = start(S, &m, S.par); if (S.par["LineSearch_LS"] == LSSM_INPUTFUN) ((SolversSMLS *)o.s.get())->LinesearchInput = userls;
    o.s->Run();
    expect(m.xprev.empty() || raw(o.s->GetXopt()) == m.xprev, "S02.chain", "returned point is not the last accepted iterate");
    sample("%s: %d searches, search %d", curconfig().c_str(), m.n, (int)S.par["LineSearch_LS"]);
}

// ================================================================== S03: search directions
struct Pair { Vector s, y; double rho; };
struct DirMon : MonB {
    using MonB::MonB; Vector cand{1}, nodir{1}; bool has = false, skip = false; double ff0 = 0, ptang = 0; std::deque<Pair> mem; double gamma = 1; bool memok = true; long nh0 = 0;
    Vector hv(const Variable &x, int m, const Vector &v) {      // inverse BFGS recursion over the stored pairs, newest last
        if (m == 0) return sc(x, gamma, pre(x, v));
        Pair &p = mem[m - 1]; Vector w = lc(x, 1, v, -p.rho * met(x, p.s, v), p.y), z = hv(x, m - 1, w); return lc(x, 1, lc(x, 1, z, -p.rho * met(x, p.y, z), p.s), p.rho * met(x, p.s, v), p.s);
    }
    Vector steep(const Variable &x, const Vector &g, double ng) { Vector d = sc(x, -1, pre(x, g)); if (met(x, d, g) / ng / ng >= -std::sqrt(EPS)) { d = sc(x, -1, g); obs("preconditioner rejected"); } return d; }
    void postDir(const View &v) {
        if (ff0 == 0) ff0 = 1 + std::fabs(*v.f1);
        if (skip || !(cond(S.strip(*v.x1)) < 1e5) || std::fabs(*v.f1) > 1e12 * ff0) { skip = true; return; }
        const Variable &x = *v.x1; double ng = *v.ngf1, tolsl = 0; obs("directions");
        if (!(ng > 0)) return;
        double slope = met(x, *v.gf1, *v.eta1), en = nm(x, *v.eta1); bool tiny = ng < 1e-6 * (*v.ngf0) || ng < 1e-9 || ng * ng < 1e-13 * (std::fabs(*v.f1));
        if (!tiny) { Vector e = F->E(x, *v.eta1); double te = F->tang(x, e); small("S03.tangent", te, std::max(1e-3 * cond(S.strip(x)), 3e4 * ptang), "direction is tangent"); ptang = te; }
        if (!tiny) expect(slope < tolsl, "S03.descent", "direction has slope %.6g (norm of gradient %.3g, of direction %.3g)", slope, ng, en);
        double tl = 1e-10 * std::max(1.0, cond(S.strip(x)));
        auto same = [&](const char *what, const Vector &d, double tol) { double s = nm(x, d) + en; small(what, nm(x, lc(x, 1, d, -1, *v.eta1)) / (s + 1e-300), tol, "direction follows the method's formula"); obs("formulas compared"); };
        switch (v.kind) {
        case K_RSD: same("S03.rsd", steep(x, *v.gf1, ng), tl); break;
        case K_RCG: {
            Vector d(*v.eta1); if (v.iter == 0 || !has) d = steep(x, *v.gf1, ng); else { d = cand; double q = met(x, cand, *v.gf1) / ng / ng; if (std::fabs(q + std::sqrt(EPS)) < 1e-10) return; if (q >= -std::sqrt(EPS)) { d = steep(x, *v.gf1, ng); obs("conjugate direction rejected"); } }
            same("S03.rcg", d, 1e-7 * std::max(1.0, cond(S.strip(x)))); break; }
        case K_RNEWTON: newton(v); break;
        case K_RBROY: case K_RBFGS: case K_RWRBFGS: { Vector d(*v.gf1); M->LinearOPEEta(x, *v.H, *v.gf1, &d); same("S03.qn", sc(x, -1, d), 1e-12); break; }
        case K_LRBFGS: if (memok) { Vector d = sc(x, -1, hv(x, (int)mem.size(), *v.gf1)); double amp = 1; for (auto &p : mem) amp *= 1 + std::fabs(p.rho) * nm(x, p.s) * nm(x, p.y); same("S03.lrbfgs", d, 1e-12 * std::min(amp, 1e5) * 10); if (!mem.empty()) obs("limited-memory directions"); } break;
        }
    }
    void newton(const View &v) {
        const Variable &x = *v.x1; double ng = *v.ngf1; int st = v.nst; obs((std::string("truncated CG status ") + str(st)).c_str());
        Vector He(*v.eta1); S.P->HessianEta(x, *v.eta1, &He); Vector res = lc(x, 1, He, 1, *v.gf1); { Vector t(res); M->Projection(x, res, &t); res = t; }
        double rn = nm(x, res), bound = ng * std::min(std::pow(ng, v.theta), v.kappa), hs = nm(x, He) + ng;
        bool tiny = ng < 1e-6 * (*v.ngf0) || ng < 1e-9;
        if (st == LSSM_LCON || st == LSSM_SCON) { if (!tiny && cond(S.strip(x)) < 1e3 && nm(x, *v.eta1) < 1e6 * (1 + hs)) small("S03.newton", std::max(0.0, rn - bound) / (hs + 1e-300), 1e-7, "direction solves the Newton equation to the requested accuracy"); obs("Newton equations"); }
        if (st == LSSM_LCON || st == LSSM_SCON) expect(v.inner >= v.mininner, "S03.newton.inner", "truncated CG stopped after %d steps, at least %d asked for", v.inner, v.mininner); expect(v.inner <= v.maxinner, "S03.newton.inner", "%d inner steps, at most %d allowed", v.inner, v.maxinner); if (st == LSSM_MAXITER) expect(v.inner == v.maxinner, "S03.newton.inner", "%d inner steps reported, limit %d", v.inner, v.maxinner);
        Vector sd = sc(x, -1, pre(x, *v.gf1));
        if (st == LSSM_NEGCURVTURE && v.inner == 0) { double s = nm(x, sd); small("S03.newton.negcurv", nm(x, lc(x, 1, sd, -1, *v.eta1)) / (s + 1e-300), 1e-10, "negative curvature at once: preconditioned steepest descent"); }
        double e2 = met(x, *v.eta1, *v.eta1); (void)e2;
        if (!tiny && st != LSSM_ERROR && v.inner > 0) { double mv = met(x, *v.gf1, *v.eta1) + 0.5 * met(x, *v.eta1, He); Vector Hs(sd); S.P->HessianEta(x, sd, &Hs); double b = met(x, sd, Hs), a = met(x, *v.gf1, sd); if (b > 0) small("S03.newton.model", std::max(0.0, mv - (-0.5 * a * a / b)) / (0.5 * a * a / b + 1e-300), 1e-6, "model value at most that of the first conjugate-gradient step"); }
    }
    Variable X1{1}; Vector E2{1}, G1{1}, P1{1}, E1{1};
    void preUpd(const View &v) { X1 = *v.x1; E2 = *v.eta2; G1 = *v.gf1; E1 = *v.eta1; }
    void postUpd(const View &v) {
        if (skip) return; const Variable &x1 = X1, &x2 = *v.x2; if (!(cond(S.strip(x2)) < 1e5)) { skip = true; return; }
        if (v.kind == K_RCG) {
            has = true; Vector Tg(G1), Td(E1), g2 = *v.gf2; M->VectorTransport(x1, E2, x2, G1, &Tg); M->VectorTransport(x1, E2, x2, E1, &Td); Vector Pg2 = pre(x2, g2), Pg1 = pre(x1, G1), y = lc(x2, 1, g2, -1, Tg); double sig = 0;
            double q = std::fabs(met(x2, g2, Tg)) / met(x1, G1, G1); if (std::fabs(q - 0.1) < 1e-9) { has = false; skip = true; return; }
            double yd = met(x2, y, Td), g2P = met(x2, g2, Pg2), g1P = met(x1, G1, Pg1), yP = met(x2, y, Pg2);
            if (q <= 0.1) {
                switch (v.rcg) {
                case FLETCHER_REEVES: sig = g2P / g1P; break;
                case POLAK_RIBIERE_MOD: sig = std::max(0.0, yP / g1P); break;
                case HESTENES_STIEFEL: sig = yP / yd; break;
                case FR_PR: { double fr = g2P / g1P, prr = yP / g1P; sig = prr < -fr ? -fr : prr > fr ? fr : prr; break; }
                case DAI_YUAN: sig = g2P / yd; break;
                case HAGER_ZHANG: sig = (yP - 2 * met(x2, y, y) / yd * met(x2, Td, Pg2)) / yd; break;
                }
                obs("conjugate updates"); double s = std::fabs(sig) + std::fabs(g2P / (std::fabs(yd) + 1e-300)) * 1e-3 + 1e-12; if (!S.pre) small("S03.rcg.sigma", std::fabs(sig - v.sigma) / s, 1e-7, "conjugacy coefficient follows the chosen formula");
            }
            if (S.pre && v.rcg == HAGER_ZHANG && sig != 0) { cand = *v.eta1; return; }   // no documented preconditioned form
            cand = sig == 0 ? sc(x2, -1, Pg2) : lc(x2, -1, Pg2, sig, Td);
        }
        if (v.kind == K_LRBFGS && memok) {
            Vector s(*v.eta1), Tg(*v.eta1); M->VectorTransport(x1, E2, x2, E2, &s); M->VectorTransport(x1, E2, x2, G1, &Tg); double b = M->Beta(x1, E2); Vector y = lc(x2, 1 / b, *v.gf2, -1, Tg);
            double sy = met(x2, s, y), ss = met(x2, s, s), yy = met(x2, y, pre(x2, y)); double ng2 = nm(x2, *v.gf2), lhs = sy / ss, rhs = v.nu * std::pow(ng2, v.mu);   // ngf2 of the previous iterate is used by the library; recheck with both
            double rhsold = v.nu * std::pow(*v.ngf1, v.mu); (void)rhs; (void)ng2; double q = *v.ngf1 / *v.ngf0;
            bool ok = lhs >= rhsold && (q < 1e-3 || (ss > EPS && sy > EPS)); double marg = std::min({std::fabs(lhs - rhsold) / (std::fabs(rhsold) + 1e-300), std::fabs(q - 1e-3) / 1e-3, std::fabs(ss - EPS) / EPS, std::fabs(sy - EPS) / EPS}); if (marg < 1e-6) { memok = false; return; }
            if (ok != v.upd) { memok = false; return; }
            for (auto &p : mem) { Vector a(p.s), c(p.y); M->VectorTransport(x1, E2, x2, p.s, &a); M->VectorTransport(x1, E2, x2, p.y, &c); p.s = a; p.y = c; }
            if (ok) { gamma = sy / yy; if (v.LMr && (int)mem.size() >= v.L) mem.clear(); if (v.L > 0) { if ((int)mem.size() >= v.L) mem.pop_front(); mem.push_back({s, y, 1 / sy}); } }
        }
    }
};
VH_SUITE(s03) {
    auto q = mkscn(r, r.i(0, K_LRBFGS)); Scn &S = *q; DirMon m(S, r); if (r.b(0.7)) S.par["Accuracy"] = 0;
    Solver o = start(S, &m, S.par); o.s->Run(); sample("%s: %d iterations", curconfig().c_str(), o.s->GetIter());
}

// ================================================================== S04: trust region rules
struct TrMon : MonB {
    using MonB::MonB; bool skip = false, acc = false, first = true; V x1before, eta2; double Delta = 0, f1 = 0, f2 = 0, rho = 0, mval = 0, mnoise = 0; int st = -1; bool have = false; double ng1 = 0, ng0 = 0; V x2; double expDelta = -1; int expAcc = -1;
    void preDir(const View &v) {
        if (skip) return;
        if (have) {  // what happened to the previous trial?
            bool moved = acc; V now = raw(*v.x1);
            expect(now == (moved ? x2 : x1before), "S04.moved", "iterate after a %s step is not the %s point", moved ? "accepted" : "rejected", moved ? "trial" : "old");
            if (expDelta >= 0) { expect(std::fabs(*v.Delta - expDelta) <= 1e-12 * expDelta, "S04.radius", "radius %.9g, rules give %.9g (rho %g, status %d)", *v.Delta, expDelta, rho, st); obs("radius rules"); }
            else obs("radius rule at the margin");
        } else if (first) expect(*v.Delta == v.tr->initial_Delta, "S04.radius", "first radius %g instead of %g", *v.Delta, v.tr->initial_Delta);
        if (have) expect(*v.Delta <= std::max(v.tr->maximum_Delta, v.tr->initial_Delta) * (1 + 1e-12), "S04.maxradius", "radius %g above the limit %g", *v.Delta, v.tr->maximum_Delta);
        have = false; first = false; x1before = raw(*v.x1);
    }
    double tl = 1, first_f = 0;
    double btol(const View &v, double c) { return v.kind == K_LRTRSR1 ? 1e-3 : v.inner == 0 ? 1e-6 * c : 0.1; }   // the norm recurrences of the inner iteration drift
    void postDir(const View &v) {
        if (skip || !(cond(S.strip(*v.x1)) < 1e4)) { skip = true; return; }
        if (first_f == 0) first_f = 1 + std::fabs(*v.f1);
        if (!finite(raw(*v.gf1)) || !std::isfinite(*v.f1) || std::fabs(*v.f1) > 1e5 * first_f) { skip = true; return; }
        const Variable &x = *v.x1; Delta = *v.Delta; st = v.tst; f1 = *v.f1; ng1 = *v.ngf1; ng0 = *v.ngf0; double c = cond(S.strip(x)), en = nm(x, *v.eta2); obs("trial steps"); obs((std::string("inner status ") + str(st)).c_str());
        expect(raw(x) == x1before, "S04.subproblem", "solving the subproblem changed the iterate");
        { Vector e = F->E(x, *v.eta2); if (v.inner < std::max(1, (int)F->dim)) small("S04.tangent", en > 0 ? F->tang(x, e) : 0, 1e-4 * c, "trial step is tangent"); }
        Vector g = *v.gf1; { Vector t(g); M->Projection(x, g, &t); g = t; } Vector Be = v.B(*v.eta2), Bg = v.B(g); double gn = met(x, g, g), gBg = met(x, g, Bg);
        mval = met(x, *v.gf1, *v.eta2) + 0.5 * met(x, *v.eta2, Be); double cl = std::fabs(met(x, *v.gf1, *v.eta2)) + std::fabs(0.5 * met(x, *v.eta2, Be));
        double alpha = gBg > 0 ? std::min(gn / gBg, Delta / std::sqrt(gn)) : Delta / std::sqrt(gn), cau = gn > 0 ? -alpha * gn + 0.5 * alpha * alpha * gBg : 0;
        if (!S.pre) expect(en <= Delta * (1 + (std::fabs(gBg) < 1e6 * gn && std::fabs(gBg) > 1e-6 * gn ? btol(v, c) : 1e-2)), "S04.norm", "trial step of norm %.9g, radius %.9g", en, Delta);
        bool tiny = std::sqrt(gn) < 1e-7 * ng0 || gn < 1e-22 || (v.kind == K_LRTRSR1 && gn < 1e-12) || v.inner > std::max(1, (int)F->dim) || (v.inner >= std::max(1, (int)F->dim) && v.tr->Min_Inner_Iter > 0); tl = c; if (v.kind == K_LRTRSR1 && !lrok(v)) { tiny = true; obs("limited-memory model too ill-conditioned to judge"); }
        double Bn = gn > 0 ? nm(x, Bg) / std::sqrt(gn) : 0; if (en > 0) Bn = std::max(Bn, nm(x, Be) / en); for (int i = 0; i < 2; i++) { Vector w(*v.gf1); { double *q = w.ObtainWriteEntireData(); long n = (long)raw(w).size(); for (long k = 0; k < n; k++) q[k] = r.n(); } { Vector z(w); M->Projection(x, w, &z); w = z; } double nw = nm(x, w); if (nw > 0) Bn = std::max(Bn, nm(x, v.B(w)) / nw); } double noise = 1e-13 * c * Bn * en * en;
        mnoise = noise;
        if (!tiny) { expect(mval <= 1e-9 * c * cl + noise, "S04.model", "trial step raises the model by %.3g", mval); if (!S.pre && v.maxinner > 0) { small("S04.cauchy", std::max(0.0, mval - cau - noise) / (std::fabs(cau) + 1e-300), 1e-6 * c, "model decrease at least that of the steepest-descent step"); obs("Cauchy decrease compared"); } }
        if (!S.pre && !tiny && (st == TRSM_NEGCURVTURE || st == TRSM_EXCREGION)) small("S04.boundary", std::fabs(en - Delta) / Delta, btol(v, c), "step reported as limited by the region lies on its boundary");
        if (v.kind != K_LRTRSR1 && (st == TRSM_LCON || st == TRSM_SCON) && !tiny && c < 1e3) { Vector res = lc(x, 1, Be, 1, g); Vector t(res); M->Projection(x, res, &t); double rn = nm(x, t), b = std::sqrt(gn) * std::min(std::pow(std::sqrt(gn), v.theta), v.kappa); small("S04.residual", std::max(0.0, rn - b) / (Bn * en + nm(x, Be) + std::sqrt(gn)), 1e-7, "inner residual meets the reported accuracy"); obs("inner residuals"); }
        if (v.kind == K_LRTRSR1 && !tiny && (v.len < F->dim || (int)raw(g).size() == F->dim)) exact(v, g);
        if (v.kind != K_LRTRSR1 && !tiny) { expect(v.inner <= v.maxinner, "S04.inner", "%d inner steps, at most %d allowed", v.inner, v.maxinner); Vector re = lc(x, 1, Be, 1, g); { Vector t(re); M->Projection(x, re, &t); re = t; } if ((st == TRSM_LCON || st == TRSM_SCON) && nm(x, re) > 1e-8 * (Bn * en + nm(x, Be) + std::sqrt(gn))) expect(v.inner >= v.mininner, "S04.inner", "truncated CG stopped after %d steps, at least %d asked for", v.inner, v.mininner); if (st == TRSM_MAXITER) expect(v.inner == v.maxinner, "S04.inner", "%d inner steps reported, limit %d", v.inner, v.maxinner); }
        double xn = std::max(1.0, vn(raw(x))); (void)xn;
    }
    void exact(const View &v, const Vector &g) {      // dense solution of the subproblem in working coordinates
        const Variable &x = *v.x1; std::vector<Vector> B; int n = (int)raw(g).size(); if (n > 40) return;
        for (int t = 0; t < 4 * n && (int)B.size() < F->dim; t++) { Vector w = F->W(x, F->tvs(r, x, 1.0)); for (int k = 0; k < 2; k++) for (auto &b : B) w = lc(x, 1, w, -met(x, b, w), b); double q = nm(x, w); if (q < 1e-6) continue; w = sc(x, 1 / q, w); for (auto &b : B) w = lc(x, 1, w, -met(x, b, w), b); B.push_back(sc(x, 1 / nm(x, w), w)); }
        int d = (int)B.size(); if (d == 0) return; Mat A(d, d); V gg(d); for (int i = 0; i < d; i++) { gg[i] = met(x, B[i], g); Vector Bb = v.B(B[i]); for (int j = 0; j < d; j++) A(j, i) = met(x, B[j], Bb); } A = sym(A);
        if (!finite(A)) { fail("S04.exact", "model operator is not finite"); return; }
        std::vector<double> w; Mat U; symeig(A, w, U); V c(d); for (int i = 0; i < d; i++) { double s = 0; for (int j = 0; j < d; j++) s += U(j, i).real() * gg[j]; c[i] = s; }
        auto nrm2 = [&](double s) { double t = 0; for (int i = 0; i < d; i++) { double q = c[i] / (w[i] + s); t += q * q; } return std::sqrt(t); };
        double lo = std::max(0.0, -w[0]), best; auto val = [&](double s, double &en) { double t = 0; en = 0; for (int i = 0; i < d; i++) { double den = w[i] + s; if (std::fabs(den) < 1e-12 * (std::fabs(w[d - 1]) + 1)) continue; double z = -c[i] / den; t += c[i] * z + 0.5 * w[i] * z * z; en += z * z; } en = std::sqrt(en); return t; };
        double en; if (w[0] > 0 && nrm2(0) <= Delta) best = val(0, en); else { double hi = lo + 1; for (int t = 0; t < 200 && nrm2(hi) > Delta; t++) hi = lo + 2 * (hi - lo); double a = lo + 1e-14 * (hi - lo), b = hi; for (int t = 0; t < 300; t++) { double mid = 0.5 * (a + b); if (nrm2(mid) > Delta) a = mid; else b = mid; } best = val(b, en); if (en < Delta * 0.999 && w[0] < 0) best += 0.5 * w[0] * (Delta * Delta - en * en); }
        double sc2 = std::fabs(best) + 1e-300, sp = (std::fabs(w[d - 1]) + std::fabs(w[0])); obs("subproblems solved independently");
        if (sp * Delta * Delta > 1e6 * sc2 || sp < 1e-4 || nm(x, g) < 1e-4) return;   // conditioning and the method's absolute tolerance 1e-10
        small("S04.exact", (mval - best) / sc2, 1e-3, "step of the limited-memory method minimises the model over the region");
    }
    void preUpd(const View &v) {
        if (skip) return; const Variable &x = *v.x1; f2 = *v.f2; rho = *v.rho; x2 = raw(*v.x2); have = true; acc = false;
        double c = cond(S.strip(*v.x2)); { Variable y(x); M->Retraction(x, *v.eta2, &y); small("S04.retraction", diff(x, y, *v.x2), 1e-11 * tl, "trial point is the retraction of the step"); }
        if (c < 1e5) { double ff = fresh_f(*v.x2); small("S04.value", std::fabs(ff - f2) / (std::fabs(ff) + std::fabs(f1) * 1e-3 + (S.pname == "SPDKarcherMean" ? 1e-12 : 1e-300)), (S.pname == "SPDKarcherMean" ? 1e-6 : 1e-11) * c, "cost of the trial point"); }
        double own = (f1 - f2) / -mval, ferr = 1e-13 * (std::fabs(f1) + std::fabs(f2)), noise = (ferr + std::fabs(f1 - f2) * 1e-6 * tl) / std::fabs(mval);
        if (std::fabs(mval) > 1e-290 && mnoise < 1e-6 * std::fabs(mval) && noise < 0.1 * (1 + std::fabs(own))) { small("S04.rho", std::max(0.0, std::fabs(own - rho) - noise) / (1 + std::fabs(own)), 1e-5 * tl, "agreement ratio recomputed"); obs("ratios compared"); }
        // radius expected from the reported ratio
        SolversSMTR &T = *v.tr; double a = ng1 / (ng0 + T.Tolerance); expDelta = Delta; bool marg = std::fabs(a - T.Accuracy) <= 1e-12 * T.Accuracy;
        if (rho > 0.75) { if (st == TRSM_EXCREGION || st == TRSM_NEGCURVTURE || st == TRSM_MAXITER) { expDelta = Delta * T.Magnified_tau; obs("radius enlarged"); } if (expDelta > T.maximum_Delta) expDelta = T.maximum_Delta; } else if (rho < 0.25 && a >= T.Accuracy) { expDelta = Delta * T.Shrinked_tau; obs("radius reduced"); }
        if (marg) expDelta = -1;
        expAcc = rho > T.Acceptence_Rho || (std::fabs(f1 - f2) / (std::fabs(f1) + 1) < std::sqrt(EPS) && f2 < f1) || (a < T.Accuracy && (f2 < f1 || st == TRSM_MIN || st == TRSM_LCON || st == TRSM_SCON)); if (marg) expAcc = -1; if (expDelta >= 0 && rho < 0.25 && expDelta < T.minimum_Delta) expAcc = 0;
        pend = true;
    }
    bool pend = false;
    void accept(const View &v) { if (skip || !have) return; acc = true; pend = false; obs("accepted"); if (expAcc >= 0) expect(expAcc == 1, "S04.acceptance", "step accepted with ratio %g, cost %.17g -> %.17g, status %d", rho, f1, f2, st); }
    void settle() { if (pend && have && !skip) { obs("rejected"); if (expAcc == 1) fail("S04.acceptance", "step rejected with ratio %g, cost %.17g -> %.17g, status %d", rho, f1, f2, st); } pend = false; }
};
struct TrMon2 : TrMon { using TrMon::TrMon; void preDir(const View &v) { settle(); TrMon::preDir(v); } };
VH_SUITE(s04) {
    auto q = mkscn(r, r.i(K_RTRSD, K_LRTRSR1)); Scn &S = *q; TrMon2 m(S, r); if (r.b(0.5)) S.par["Accuracy"] = 0;
    Solver o = start(S, &m, S.par); o.s->Run(); if (o.s->GetIter() < S.par["Max_Iteration"] || true) m.settle();
    if (m.have && !m.skip) expect(raw(o.s->GetXopt()) == (m.acc ? m.x2 : m.x1before), "S04.moved", "returned point is not the last %s point", m.acc ? "accepted" : "kept");
    sample("%s: %d iterations", curconfig().c_str(), o.s->GetIter());
}

// ================================================================== S05: quasi-Newton updates
struct QnMon : MonB {
    using MonB::MonB; bool skip = false, lmok = true; Variable X1{1}; Vector E2{1}, G1{1}; LinearOPE H0{1}; double ng1 = 0; std::deque<Pair> mem; double gamma = 1; int iter = 0; bool pendTr = false; bool lastupd = true; V Bx; LinearOPE Bsav{1};
    Vector A(const Variable &x, const LinearOPE &H, const Vector &v) { Vector o(v); M->LinearOPEEta(x, H, v, &o); return o; }
    Vector rt(const Variable &x) { return F->W(x, F->tvs(r, x, 1.0)); }
    LinearOPE deep(const LinearOPE &H) { LinearOPE o(H); o.CopyOnWrite(); return o; }
    void preUpd(const View &v) { if (skip) return; X1 = *v.x1; E2 = *v.eta2; G1 = *v.gf1; ng1 = *v.ngf1; iter = v.iter; if (v.H) H0 = deep(*v.H); if (v.kind == K_RTRSR1 || v.kind == K_LRTRSR1) HE = *v.Heta2; }
    Vector HE{1};
    void postUpd(const View &v) {
        if (skip) return; if (!(cond(S.strip(*v.x2)) < 1e4) || !(cond(S.strip(X1)) < 1e4) || !std::isfinite(*v.f2) || !finite(raw(*v.gf2)) || !finite(raw(G1))) { skip = true; return; }
        const Variable &x1 = X1, &x2 = *v.x2; double c = std::max(cond(S.strip(x1)), cond(S.strip(x2))); double ng0 = *v.ngf0;
        if (v.kind == K_RTRSR1) { sr1(v, c); return; } if (v.kind == K_LRTRSR1) { lsr1(v, c); return; }
        if (!v.s) return;
        // transported pair
        Vector s(E2), y(E2), g2 = *v.gf2; const Variable &xb = v.kind == K_RWRBFGS ? x1 : x2;
        if (v.kind == K_RWRBFGS) { s = E2; Vector ct(E2); M->coTangentVector(x1, E2, x2, g2, &ct); y = lc(x1, 1, ct, -1, G1); }
        else { M->VectorTransport(x1, E2, x2, E2, &s); Vector Tg(E2); M->VectorTransport(x1, E2, x2, G1, &Tg); y = lc(x2, 1 / M->Beta(x1, E2), g2, -1, Tg); }
        small("S05.pair.s", nm(xb, lc(xb, 1, s, -1, *v.s)) / (nm(xb, s) + 1e-300), 1e-11 * c, "s is the transported step"); double ysc = nm(xb, y) + 1e-3 * nm(x1, G1);
        small("S05.pair.y", nm(xb, lc(xb, 1, y, -1, *v.y)) / (ysc + 1e-300), 1e-10 * c, "y is the transported gradient difference"); obs("pairs compared");
        double sy = met(xb, s, y), ss = met(xb, s, s), yy = met(xb, y, v.kind == K_LRBFGS ? pre(xb, y) : y), q = ng1 / ng0, lhs = sy / ss, rhs = v.nu * std::pow(ng1, v.mu);
        bool ok = lhs >= rhs && (q < 1e-3 || (ss > EPS && sy > EPS)); double scy = nm(xb, s) * nm(xb, y); double marg = std::min({std::fabs(lhs - rhs) / (std::fabs(rhs) + scy / ss * 1e-3 + 1e-300), std::fabs(q - 1e-3) / 1e-3, std::fabs(ss - EPS) / EPS, std::fabs(sy - EPS) / EPS}), ysm = std::fabs(sy) / scy;
        if (marg > 1e-6 && ysm > 1e-6) { expect(ok == v.upd, "S05.cautious", "update %s although <s,y>/<s,s>=%.4g, bound %.4g", v.upd ? "made" : "skipped", lhs, rhs); obs("update decisions"); }
        if (v.kind != K_LRBFGS) expect(!finite(raw(H0)) || finite(raw(*v.H)), "S05.finite", "approximation is not finite (update %s, <s,y>=%g)", v.upd ? "made" : "skipped", sy);
        if (v.upd) obs("updates made"); else obs("updates skipped");
        if (v.kind == K_LRBFGS) { lbfgs(v, s, y, sy, yy, c); return; }
        if (v.upd && !(ysm > 1e-5 && ss > 1e-18 * c)) return;      // the update itself is ill-conditioned, or s is mostly rounding
        LinearOPE Ht = deep(H0); if (v.isconvex && iter == 1 && sy > 0) { Ht.ScaledIdOPE(sy / met(xb, y, y)); obs("initial scaling"); }
        LinearOPE T(Ht); if (v.kind != K_RWRBFGS) M->TranHInvTran(x1, E2, x2, Ht, &T); else T = Ht;
        double rho = 1 / sy; auto upd = [&](const Vector &w) { if (!v.upd) return A(xb, T, w); Vector u = lc(xb, 1, w, -rho * met(xb, s, w), y), z = A(xb, T, u); z = lc(xb, 1, z, -rho * met(xb, y, z), s); return lc(xb, 1, z, rho * met(xb, s, w), s); };
        double amp = v.upd ? std::pow(1 / ysm, 2) : 1, tu = 1e-9 * c + 1e4 * EPS * (v.upd ? nm(x1, G1) / nm(xb, y) + 1 / nm(xb, s) : 1) + 1e3 * EPS * nm(x1, E2); tu *= anti(x1, x2);
        for (int k = 0; k < 2; k++) {
            Vector w = k == 0 && v.kind != K_RWRBFGS && nm(x2, g2) > 1e-3 * nm(x1, G1) ? g2 : rt(xb), w2 = w, own = upd(w), got(own);
            if (v.kind == K_RWRBFGS) { if (!F->invVT) break; M->VectorTransport(x1, E2, x2, w, &w2); Vector to(own); M->VectorTransport(x1, E2, x2, own, &to); own = to; }
            got = A(x2, *v.H, w2); Vector base = A(xb, T, w); double hs = nm(x2, own) + nm(xb, base) + opn(T) * nm(xb, w); small("S05.formula", nm(x2, lc(x2, 1, own, -1, got)) / (hs * amp + 1e-300), tu, "updated operator equals the update formula applied to the transported operator"); obs("updates compared");
        }
        // invariants seen from outside
        Vector a = rt(x2), b = rt(x2), Ha = A(x2, *v.H, a), Hb = A(x2, *v.H, b); double hn = opn(*v.H);
        small("S05.symmetric", std::fabs(met(x2, Ha, b) - met(x2, a, Hb)) / (hn * nm(x2, a) * nm(x2, b) + 1e-300), 1e-7 * c, "approximation is symmetric");
        if (v.upd && v.kind != K_RWRBFGS) { Vector Hy = A(x2, *v.H, y); small("S05.secant", nm(x2, lc(x2, 1, Hy, -1, s)) / ((nm(x2, s) + opn(T) * nm(x2, y)) * amp + 1e-300), tu, "approximation maps y to s"); obs("secant equations"); }
        if (v.upd && v.kind == K_RWRBFGS) { Vector Ty(y), Ts(s); M->VectorTransport(x1, E2, x2, y, &Ty); M->VectorTransport(x1, E2, x2, s, &Ts); if (F->invVT) { Vector Hy = A(x2, *v.H, Ty); small("S05.secant", nm(x2, lc(x2, 1, Hy, -1, Ts)) / ((nm(x2, Ts) + opn(T) * nm(x2, Ty)) * amp + 1e-300), tu, "approximation maps y to s"); obs("secant equations"); } }
        Mat Hm = sym(of(*v.H)); if (M->GetIsIntrinsic() && Hm.m == F->dim && Hm.m <= 32 && finite(Hm)) { std::vector<double> w; Mat U; symeig(Hm, w, U); expect(w[0] > -1e-11 * w.back(), "S05.posdef", "smallest eigenvalue %.3g, largest %.3g", w[0], w.back()); obs("spectra"); }
        double p = met(x2, a, Ha); expect(p > -1e-11 * hn * met(x2, a, a), "S05.posdef", "negative curvature %.3g", p);
    }
    double opn(const LinearOPE &H) { V h = raw(H); double n = vn(h); return n; }
    double anti(const Variable &x, const Variable &y) { if (F->name.find("Sphere") != 0) return 1; V a = raw(x), b = raw(y); if (a.size() != b.size()) return 1; double d = 0; for (size_t i = 0; i < a.size(); i++) d += a[i] * b[i]; d = std::max(1e-12, 1 + d); return std::max(1.0, 1 / d / d); }   // transports blow up towards the antipode
    void lbfgs(const View &v, const Vector &s, const Vector &y, double sy, double yy, double c) {
        const Variable &x1 = X1, &x2 = *v.x2; if (!lmok) return;
        for (auto &p : mem) { Vector a(p.s), b(p.y); M->VectorTransport(x1, E2, x2, p.s, &a); M->VectorTransport(x1, E2, x2, p.y, &b); p.s = a; p.y = b; }
        if (v.upd) { gamma = sy / yy; if (v.LMr && (int)mem.size() >= v.L) { mem.clear(); obs("memory restarted"); } if (v.L > 0) { if ((int)mem.size() >= v.L) { mem.pop_front(); obs("oldest pair replaced"); } mem.push_back({s, y, 1 / sy}); } }
        if (!expect(v.len == (int)mem.size(), "S05.memory", "%d pairs stored, expected %d", v.len, (int)mem.size())) { lmok = false; return; }
        expect(v.len <= std::max(0, v.L), "S05.memory", "more pairs than allowed");
        for (int i = 0; i < v.len; i++) { int k = (v.beg + i) % v.L; double es = nm(x2, lc(x2, 1, mem[i].s, -1, v.S[k])) / (nm(x2, mem[i].s) + 1e-300), ey = nm(x2, lc(x2, 1, mem[i].y, -1, v.Y[k])) / (nm(x2, mem[i].y) + 1e-3 * *v.ngf0 * 1e-3 + 1e-300); small("S05.memory.s", es, 1e-9 * c, "stored s is the transported pair"); small("S05.memory.y", ey, 1e-7 * c, "stored y is the transported pair"); small("S05.memory.rho", std::fabs(v.RHO[k] - mem[i].rho) / std::fabs(mem[i].rho), 1e-5 * c / std::max(1e-6, 1.0), "stored reciprocal curvature"); obs("stored pairs compared"); }
        small("S05.memory.gamma", std::fabs(v.gamma - gamma) / std::fabs(gamma), 1e-6 * c, "initial scaling of the limited-memory operator");
        if (F->isoVT && v.len >= 2 && c < 1e6 && finite(raw(mem[0].s))) { for (int i = 0; i < v.len; i++) small("S05.memory.curv", std::fabs(met(x2, mem[i].s, mem[i].y) * mem[i].rho - 1), (1e-3 * c + 1e-10 * nm(x2, mem[i].s) * nm(x2, mem[i].y) * std::fabs(mem[i].rho) * (1 + 1e-4 / nm(x2, mem[i].s)) + 1e4 * EPS * nm(x1, E2)) * anti(x1, x2), "isometric transport keeps curvature of stored pairs"); }
    }
    void sr1(const View &v, double c) {
        const Variable &x1 = X1; Vector y(E2), s = E2; M->InverseVectorTransport(x1, E2, *v.x2, *v.gf2, &y); y = lc(x1, 1, y, -1, G1); double ysc = nm(x1, y) + 1e-3 * nm(x1, G1);
        small("S05.pair.y", nm(x1, lc(x1, 1, y, -1, *v.y)) / (ysc + 1e-300), 1e-10 * c, "y is the transported gradient difference"); small("S05.pair.s", nm(x1, lc(x1, 1, s, -1, *v.s)) / (nm(x1, s) + 1e-300), 1e-12, "s is the step"); obs("pairs compared");
        double ny = nm(x1, y), ns = nm(x1, s); if (!(ns > 0)) return;
        // old operator, possibly rescaled
        LinearOPE B0 = deep(H0); double sy = met(x1, s, y);
        if (iter == 0 && !(std::fabs(sy) > 1e-9 * ns * ny)) return; if (iter == 0) { LinearOPE B1 = deep(H0); B1.ScaledIdOPE(ny * ny / sy); V a = raw(B0), b = raw(*v.H), d = raw(B1); bool identity = true; { LinearOPE I = deep(H0); I.ScaledIdOPE(1); identity = raw(I) == a; } if (identity) B0 = B1; obs("initial scaling"); (void)b; (void)d; }
        Vector z = lc(x1, 1, y, -1, A(x1, B0, s)); double den = met(x1, s, z), nz = nm(x1, z); bool ok = den * den >= EPS * ns * ns * nz * nz && (nz * nz >= EPS || *v.ngf2 / *v.ngf0 < 1e-3);
        double q1 = *v.ngf2 / *v.ngf0; if (nz > 1e-5 * (ny + opn(B0) * ns) && (nz * nz > 2 * EPS || q1 < 0.9e-3) && std::fabs(den) > 1e-4 * ns * nz && c < 1e3) { expect(v.upd, "S05.cautious", "update skipped although |<s,z>|/(|s||z|)=%.3g", std::fabs(den) / ns / nz); obs("updates called for"); } (void)ok; double hn = opn(*v.H), h0 = opn(B0);
        Vector a = rt(x1), b = rt(x1), Ha = A(x1, *v.H, a), Hb = A(x1, *v.H, b);
        expect(std::isfinite(hn), "S05.finite", "Hessian approximation is not finite (update %s)", v.upd ? "made" : "skipped"); if (!std::isfinite(hn)) { skip = true; return; }
        hmax = std::max(hmax, hn); small("S05.symmetric", std::fabs(met(x1, Ha, b) - met(x1, a, Hb)) / (hmax * nm(x1, a) * nm(x1, b) + 1e-300), 1e-9 * c, "approximation is symmetric");
        if (v.upd) {
            obs("updates made"); if (nz < 1e-9 * (ny + h0 * ns) || std::fabs(den) < 1e-6 * ns * nz) return; double amp = 1 + nz * nz / std::fabs(den);
            Vector Bs = A(x1, *v.H, s); small("S05.secant", nm(x1, lc(x1, 1, Bs, -1, y)) / ((ny + (h0 + hn) * ns) + 1e-300), 1e-9 * c, "approximation maps s to y"); obs("secant equations");
            Vector own = lc(x1, 1, A(x1, B0, a), met(x1, z, a) / den, z); small("S05.formula", nm(x1, lc(x1, 1, own, -1, Ha)) / ((h0 + nz * nz / std::fabs(den)) * nm(x1, a) * (1 + amp * 0) + 1e-300), 2e-6 * c, "symmetric rank-one formula"); obs("updates compared");
        } else { obs("updates skipped"); small("S05.formula", vn(vsub(raw(B0), raw(*v.H))) / (h0 + 1e-300), 1e-12, "skipped update leaves the operator"); }
    }
    // limited memory SR1: recursion over stored pairs
    std::deque<Pair> sm; double sgam = 1; bool sok = true; bool sfirst = true; bool wasupd = true; V xwhere;
    Vector bsr1(const Variable &x, int m, const Vector &v) {
        std::vector<Vector> Z; V den; Vector o = sc(x, sgam, v);
        for (int i = 0; i < m; i++) { Vector z = sc(x, sgam, sm[i].s); for (int j = 0; j < i; j++) z = lc(x, 1, z, met(x, Z[j], sm[i].s) / den[j], Z[j]); z = lc(x, 1, sm[i].y, -1, z); den.push_back(met(x, z, sm[i].s)); Z.push_back(z); if (std::fabs(den.back()) < 1e-7 * nm(x, z) * nm(x, sm[i].s)) illrec = true; o = lc(x, 1, o, met(x, z, v) / den.back(), z); }
        return o;
    }
    bool illrec = false; double hmax = 0;
    void postDir(const View &v) {
        if (v.kind != K_LRTRSR1 || skip || !sok || !(cond(S.strip(*v.x1)) < 1e4)) return; const Variable &x = *v.x1;
        if (v.len == 0 && !sm.empty()) {      // pairs that do not define an operator are dropped
            int k = (int)sm.size(); Mat Q(k, k); double mx = std::fabs(sgam); for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) { int lo = std::min(i, j), hi = std::max(i, j); Q(i, j) = (met(x, sm[hi].s, sm[lo].y) - sgam * met(x, sm[i].s, sm[j].s)) / nm(x, sm[i].s) / nm(x, sm[j].s); }
            std::vector<double> w; Mat U; symeig(Q, w, U); double mn = 1e300; for (double e : w) mn = std::min(mn, std::fabs(e)), mx = std::max(mx, std::fabs(e));
            expect(!(mn > 1e-9 * mx), "S05.memory", "%d pairs dropped although they define an operator (%.3g, %.3g)", k, mn, mx); obs("degenerate memory dropped"); sok = false; return;
        }
        if (!expect(v.len == (int)sm.size(), "S05.memory", "%d pairs stored, expected %d", v.len, (int)sm.size())) { sok = false; return; }
        for (int i = 0; i < v.len; i++) { int k = (v.beg + i) % v.L; small("S05.memory.s", nm(x, lc(x, 1, sm[i].s, -1, v.S[k])) / (nm(x, sm[i].s) + 1e-300), 1e-9, "stored s is the transported pair"); small("S05.memory.y", nm(x, lc(x, 1, sm[i].y, -1, v.Y[k])) / (nm(x, sm[i].y) + 1e-6 * *v.ngf0 + 1e-300), 1e-7, "stored y is the transported pair"); obs("stored pairs compared"); }
        if (!(std::fabs(v.gamma - sgam) <= 1e-6 * std::fabs(sgam))) { expect(std::isfinite(sgam) == std::isfinite(v.gamma) && !std::isfinite(sgam), "S05.memory.gamma", "scaling %.9g, expected %.9g", v.gamma, sgam); sok = false; return; }
        if (v.len > F->dim || !F->isoVT) return;
        Vector w = rt(x); illrec = false; Vector own = bsr1(x, v.len, w), got = v.B(w); double bn = 0; for (int i = 0; i < v.len; i++) bn += 0; if (illrec) return; double sc_ = nm(x, own) + std::fabs(sgam) * nm(x, w); for (auto &p : sm) sc_ += nm(x, p.y) / nm(x, p.s) * nm(x, w);
        if (!lrok(v)) return; small("S05.memory.action", nm(x, lc(x, 1, own, -1, got)) / (sc_ + 1e-300), 1e-4, "limited-memory operator equals the recursion over the stored pairs"); if (v.len) obs("limited-memory operators compared");
    }
    void lsr1(const View &v, double c) {
        if (!sok) return; const Variable &x1 = X1; Vector y(E2), s = E2; M->InverseVectorTransport(x1, E2, *v.x2, *v.gf2, &y); y = lc(x1, 1, y, -1, G1); double ysc = nm(x1, y) + 1e-3 * nm(x1, G1);
        small("S05.pair.y", nm(x1, lc(x1, 1, y, -1, *v.y)) / (ysc + 1e-300), 1e-10 * c, "y is the transported gradient difference"); obs("pairs compared");
        double sy = met(x1, s, y), yy = met(x1, y, y), ss = met(x1, s, s); Vector HE0 = HE; if (iter == 0) { double q0 = yy / sy; if (std::isfinite(q0) && q0 != 0) sgam = q0; HE0 = sc(x1, sgam, s); }
        Vector z = lc(x1, 1, y, -1, HE0); double den = met(x1, s, z), nz2 = met(x1, z, z), q = *v.ngf2 / *v.ngf0; bool ok = den * den >= EPS * ss * nz2 && (nz2 >= EPS || q < 1e-3) && (iter != 0 || std::fabs(sgam - sy / ss) > std::sqrt(EPS));
        double rr = den * den / (ss * nz2 + 1e-300); bool marg = std::fabs(rr - EPS) < 1e-3 * EPS + 1e-17 || std::fabs(nz2 - EPS) < 0.5 * EPS || std::fabs(q - 1e-3) < 1e-8 || (iter == 0 && std::fabs(std::fabs(sgam - sy / ss) - std::sqrt(EPS)) < 1e-9) || std::sqrt(nz2) < 1e-6 * (std::sqrt(yy) + nm(x1, HE0));
        if (marg) { sok = false; return; }
        if (!expect(ok == v.upd, "S05.cautious", "pair %s although <s,z>^2/(|s|^2|z|^2)=%.3g", v.upd ? "stored" : "dropped", rr)) { sok = false; return; }
        if (v.upd) { obs("updates made"); if (wasupd && !(iter == 0) && sy != 0) sgam = yy / sy; if (v.LMr && (int)sm.size() >= v.L) { sm.clear(); obs("memory restarted"); } if (v.L > 0) { if ((int)sm.size() >= v.L) { sm.pop_front(); obs("oldest pair replaced"); } sm.push_back({s, y, 0}); } } else obs("updates skipped");
        wasupd = v.upd;
    }
    void accept(const View &v) {
        if (skip) return;
        if (v.kind == K_LRTRSR1) for (auto &p : sm) { Vector a(p.s), b(p.y); M->VectorTransport(*v.x1, *v.eta2, *v.x2, p.s, &a); M->VectorTransport(*v.x1, *v.eta2, *v.x2, p.y, &b); p.s = a; p.y = b; }
        if (v.kind == K_RTRSR1) { LinearOPE T(*v.H); M->TranHInvTran(*v.x1, *v.eta2, *v.x2, deep(*v.H), &T); Bsav = deep(T); pendTr = true; Bx.clear(); }
    }
    void preDir(const View &v) { if (v.kind == K_RTRSR1 && !skip) { if (pendTr) { small("S05.transport", vn(vsub(raw(Bsav), raw(*v.H))) / (opn(Bsav) + 1e-300), 1e-12, "accepted step transports the approximation"); obs("transported operators"); } else if (!Bx.empty()) expect(raw(*v.H) == Bx, "S05.transport", "approximation changed outside the update"); pendTr = false; Bx.clear(); } }
};
VH_SUITE(s05) {
    static const int ks[] = {K_RBROY, K_RBFGS, K_RWRBFGS, K_LRBFGS, K_RTRSR1, K_LRTRSR1}; auto q = mkscn(r, ks[r.i(0, 5)]); Scn &S = *q; QnMon m(S, r); if (r.b(0.7)) S.par["Accuracy"] = 0;
    Solver o = start(S, &m, S.par); o.s->Run(); sample("%s: %d iterations", curconfig().c_str(), o.s->GetIter());
}
