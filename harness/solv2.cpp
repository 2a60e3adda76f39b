// Whole-run properties of the smooth solvers: stopping, reproducibility, options, known solutions.
#include "solv.h"
#include "Others/Timer.h"
#include "Others/randgen.h"
#include <chrono>
#include <fcntl.h>
#include <sys/mman.h>
using namespace ROPTLIB;
using namespace vh;

// ================================================================== S06: stopping
static double now() { return std::chrono::duration<double>(std::chrono::system_clock::now().time_since_epoch()).count(); }
struct UserStop { int at = -1; bool used = false; long calls = 0; double ng0 = 0, ng = 0; V x; const Problem *p = nullptr; const Solvers *s = nullptr; bool last = false; int len = 0; };
static UserStop US;
static bool userstop(const Variable &x, const Vector &, integer, realdp finalval, realdp initval, const Problem *p, const Solvers *s) { US.ng = finalval; US.ng0 = initval; US.x = raw(x); US.p = p; US.s = s; US.last = US.calls >= US.at; US.calls++; return US.last; }
struct StopMon : MonB {
    using MonB::MonB; struct Call { int it; bool b; double before, after, f1, f2, ng0, ng; V x; };
    std::vector<Call> c; double t; double t0 = 0, t1 = 0; int upd = 0, dirs = 0, minn = 0, maxn = 0; double f0 = 0; int lastdir = -1; std::vector<int> loopit; std::vector<Variable> xs;
    void preStop(const View &v) { t = now(); if (c.empty()) t1 = t; }
    void stop(const View &v, bool b) { double a = now(); int it = v.iter; if (v.tr && !c.empty()) it++; c.push_back({it, b, t, a, *v.f1, *v.f2, *v.ngf0, *v.ngf2, raw(*v.x2)}); if (c.size() == 1) c[0].x = raw(*v.x1); xs.push_back(c.size() == 1 ? *v.x1 : *v.x2); }
    void preDir(const View &v) { loopit.push_back(v.iter); }
    void postUpd(const View &v) { upd++; }
};
VH_SUITE(s06) {
    auto q = mkscn(r); Scn &S = *q; auto &P = S.par;
    if (r.b(0.8)) { P["Tolerance"] = r.pickd({0.9, 0.5, 0.2, 0.1, 1e-2, 1e-3}); P["Stop_Criterion"] = r.i(0, 2); if (P["Stop_Criterion"] == SM_GRAD_F) { Variable y(S.x0); P["Tolerance"] *= std::sqrt(std::max(1e-300, S.M->Metric(y, [&] { StopMon m(S, r); return m.fresh_g(S.x0); }(), [&] { StopMon m(S, r); return m.fresh_g(S.x0); }()))); } }
    if (r.b(0.3)) P["Min_Iteration"] = r.i(1, 6); if (r.b(0.3)) P["Max_Iteration"] = r.i(1, 8); if (P.count("Min_Iteration")) P["Min_Iteration"] = std::min(P["Min_Iteration"], P["Max_Iteration"]);
    bool timed = r.b(0.06) && !tracing(); if (timed) { P["TimeBound"] = r.pickd({1e-3, 4e-3, 0.012}); S.pp->delay = r.picki({300, 1000, 2500}); }
    if (r.b(0.05)) S.pp->nanat = r.i(2, 25);
    StopMon m(S, r); m.t0 = now(); Solver o = start(S, &m, P); SolversSM &s = *o.s; US = UserStop(); bool user = r.b(0.12); if (user) { US.at = r.i(0, 8); s.StopPtr = &userstop; }
    double tol = s.Tolerance, bound = s.TimeBound; int Max = s.Max_Iteration, Min = s.Min_Iteration, crit = s.Stop_Criterion; m.t0 = now(); s.Run(); View v = o.view(); int it = s.GetIter();
    obs("runs judged"); expect(!m.c.empty(), "S06.asked", "the stopping test was never evaluated"); if (m.c.empty()) return;
    expect(s.Tolerance == tol && s.TimeBound == bound && s.Max_Iteration == Max && s.Min_Iteration == Min && s.Stop_Criterion == crit, "S06.settings", "stopping parameters changed by the run");
    expect(it <= Max, "S06.max", "%d iterations, limit %d", it, Max);
    bool tr = isTR(S.kind), nan = !std::isfinite(*v.f2), lsfail = v.ls && v.lsst != LSSM_SUCCESS, radius = tr && *v.Delta < v.tr->minimum_Delta, nostep = nan || lsfail || radius;
    expect(it >= Min || nostep, "S06.min", "%d iterations, minimum %d", it, Min);
    if (it >= Min && Min > 0) obs("minimum respected"); if (it == Max) obs("limit reached");
    // each evaluation of the test
    Variable y0(S.x0); Vector g0 = m.fresh_g(S.x0, &y0); double ng0 = m.nm(y0, g0); bool lastb = false;
    for (size_t i = 0; i < m.c.size(); i++) {
        auto &c = m.c[i]; lastb = c.b; if (i) expect(c.it > m.c[i - 1].it, "S06.order", "test evaluated twice at iterate %d", c.it);
        double lo = c.before - m.t1, hi = c.after - m.t0; if (lo > bound + 2e-4) { expect(c.b, "S06.time", "time limit %g exceeded (%g) but the run goes on", bound, lo); obs("time limit reached"); continue; }
        if (hi > bound - 2e-4 && bound < 1) continue;
        if (user) { obs("user criterion"); continue; }
        bool own = crit == SM_FUN_REL ? std::fabs((c.f1 - c.f2) / (std::fabs(c.f1) + 1)) < tol && (tr ? c.it > 1 : c.it > 0) : crit == SM_GRAD_F ? c.ng < tol : c.ng == 0 || c.ng / c.ng0 < tol;
        bool skip = crit == SM_FUN_REL && tr && c.it == 1;
        if (!skip) expect(own == c.b, "S06.criterion", "criterion %d at iterate %d: f %.17g -> %.17g, |g| %.17g of %.17g, tolerance %g: test says %d", crit, c.it, c.f1, c.f2, c.ng, c.ng0, tol, c.b);
        obs("tests judged"); if (c.b) obs(crit == 0 ? "stopped by cost change" : crit == 1 ? "stopped by gradient norm" : "stopped by gradient ratio");
        // the same from the iterate alone
        Variable z(m.xs[i]); if (!finite(raw(z)) || !(scond(*S.F, S.strip(z)) < 1e4)) continue; Vector g = m.fresh_g(m.xs[i], &z); double ng = m.nm(z, g), f = S.P->f(z); if (std::fabs(f) > 1e8) continue;
        if (crit != SM_FUN_REL) { double val = crit == SM_GRAD_F ? ng : ng / ng0, sc = crit == SM_GRAD_F ? ng + 1e-3 * ng0 : 1, d = 1e-5 * sc + (crit == SM_GRAD_F ? 1e-8 * (1 + std::fabs(f)) : 1e-8 * (1 + std::fabs(f)) / (ng0 + 1e-300)); if (ng0 < 1e-8) continue; if (val < tol - d) expect(c.b, "S06.truth", "gradient measure %.9g at iterate %d, tolerance %g: run goes on", val, c.it, tol); if (val > tol + d) expect(!c.b, "S06.truth", "gradient measure %.9g at iterate %d, tolerance %g: run stops", val, c.it, tol); }
        else if (i && !tr) { double fp = S.P->f(S.strip(m.xs[i - 1])), val = std::fabs(fp - f) / (std::fabs(fp) + 1), d = 1e-9; if (val < tol - d) expect(c.b, "S06.truth", "relative change %.9g at iterate %d, tolerance %g: run goes on", val, c.it, tol); if (val > tol + d) expect(!c.b, "S06.truth", "relative change %.9g at iterate %d, tolerance %g: run stops", val, c.it, tol); }
        obs("iterates judged");
    }
    if (user) { if (!timed) expect(US.calls > 0, "S06.user", "user criterion not asked"); if (US.calls) expect(US.p == S.pp.get() && US.s == (const Solvers *)&s, "S06.user", "user criterion asked about another problem"); bool asked = US.calls == (long)m.c.size(); if (asked) expect(US.x == m.c.back().x, "S06.user", "user criterion shown another point"); for (size_t i = 0; i < m.c.size(); i++) if (m.c[i].after - m.t0 < bound - 2e-4) expect(m.c[i].b == ((int)i >= US.at), "S06.user", "answer of the user criterion at test %d ignored", (int)i); auto eq = [](double a, double b) { return a == b || (a != a && b != b); }; if (asked) expect(eq(US.ng, m.c.back().ng) && eq(US.ng0, m.c.back().ng0), "S06.user", "user criterion told other gradient norms"); }
    // why did it end, why did it not end before
    bool stopped = lastb && it >= Min; expect(stopped || it >= Max || nostep, "S06.reason", "run ended after %d iterations (limits %d..%d) without any reason (status %d)", it, Min, Max, v.lsst);
    for (size_t i = 0; i < m.c.size(); i++) { int from = m.c[i].it, to = i + 1 < m.c.size() ? m.c[i + 1].it : it; if (m.c[i].b && to > std::max(from, Min)) fail("S06.early", "the test said stop at iterate %d but the run went on to %d (minimum %d)", from, to, Min); }
    if (nan) obs("ended by an invalid cost"); if (lsfail) obs("ended by the line search"); if (radius) obs("ended by the radius");
    if (nan) expect(S.pp->fv.size() && !std::isfinite(S.pp->fv.back()), "S06.nan", "ended by an invalid cost although the last cost was finite");
    else if (S.pp->nanat >= 0) for (double f : S.pp->fv) if (!std::isfinite(f)) { obs("invalid cost survived"); break; }
    sample("%s: %d iterations, limits %d..%d, last answer %d", curconfig().c_str(), it, Min, Max, lastb);
}

// ================================================================== S07: reproducible, side-effect free
struct Result { V x, f, g, t, step, init, all; int it = 0; std::vector<long> cnt; };
static Result result(Solver &o, Scn &S, bool series) {
    SolversSM &s = *o.s; Result R; R.x = raw(s.GetXopt()); R.it = s.GetIter(); R.cnt = {s.Getnf(), s.Getng(), s.GetnR(), s.GetnV(), s.GetnVp(), s.GetnH()}; R.all = {s.Getfinalfun(), s.Getnormgf(), s.Getnormgfgf0()};
    if (series && s.Verbose >= 2) { R.f = raw(s.GetfunSeries()); R.g = raw(s.GetgradSeries()); R.f.resize(R.it + 1); R.g.resize(R.it + 1); if (!isTR(S.kind)) { R.step = raw(s.GetSolverInfo().Field("acceptedstepsize")); R.step.resize(R.it + 1); R.init = raw(s.GetSolverInfo().Field("initialstepsize")); R.init.resize(R.it + 1); } }
    return R;
}
static bool same(const V &a, const V &b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0); }
static bool eqres(const char *check, const Result &a, const Result &b, const char *what) {
    bool ok = expect(a.it == b.it, check, "%s: %d and %d iterations", what, a.it, b.it) && expect(same(a.all, b.all), check, "%s: cost %.17g and %.17g, gradient norm %.17g and %.17g", what, a.all[0], b.all[0], a.all[1], b.all[1]) && expect(same(a.x, b.x), check, "%s: returned points differ", what) && expect(a.cnt == b.cnt, check, "%s: evaluation counts differ (nf %ld %ld, ng %ld %ld, nR %ld %ld, nV %ld %ld, nVp %ld %ld, nH %ld %ld)", what, a.cnt[0], b.cnt[0], a.cnt[1], b.cnt[1], a.cnt[2], b.cnt[2], a.cnt[3], b.cnt[3], a.cnt[4], b.cnt[4], a.cnt[5], b.cnt[5]);
    if (ok && !a.f.empty() && !b.f.empty()) { ok = expect(same(a.f, b.f) && same(a.g, b.g) && same(a.step, b.step), check, "%s: recorded series differ", what); obs("series compared"); }
    obs("runs compared"); return ok;
}
static void pollute(Rng &r) {                       // unrelated work: other solvers, other problems, heap churn
    auto q = mkscn(r); Solver o = start(*q, nullptr, q->par); o.s->Max_Iteration = std::min<integer>(o.s->Max_Iteration, 4); o.s->Min_Iteration = 0; o.s->Run(); std::vector<std::vector<double>> junk; for (int i = 0; i < 20; i++) junk.push_back(std::vector<double>(r.i(1, 400), r.n()));
}
VH_SUITE(s07) {
    auto q = mkscn(r); Scn &S = *q; std::string cfg = curconfig(); S.par["TimeBound"] = 1e6; bool rerunall = r.b(0.5); auto base = S.par;
    std::vector<std::pair<std::string, double>> flags; Result A;
    auto intact = [&](const char *when) {
        expect(same(raw(S.x0), S.x0raw), "S07.start", "initial point changed %s", when); expect(S.M->GetIsIntrinsic() == S.flag_intr && S.M->GetHasHHR() == S.flag_hhr, "S07.settings", "manifold settings changed %s", when);
        if (S.pf) expect(S.pf->dataintact(), "S07.data", "problem data changed %s", when); obs("data checked");
    };
    Solver a = start(S, nullptr, S.par); a.s->Run(); A = result(a, S, true); intact("by a run"); long nf = S.pp->nf;
    int reps = r.i(1, 3);
    for (int k = 0; k < reps; k++) {
        auto par = S.par; if (r.b(0.7)) par["Verbose"] = r.i(0, 3); if (r.b(0.5)) par["OutputGap"] = r.i(1, 4);
        std::unique_ptr<Solver> other; int oit = -1; if (r.b(0.6)) pollute(r); if (r.b(0.4)) { other.reset(new Solver(start(S, nullptr, S.par))); if (r.b()) { other->s->Max_Iteration = 2; other->s->Min_Iteration = 0; other->s->Run(); oit = other->s->GetIter(); } }
        config("%s", cfg.c_str()); if (r.b(0.5)) genrandseed((unsigned)r.next());
        S.fresh(); Solver b = mksolver(S.kind, S.pp.get(), &S.x0); b.set(par); b.s->Run(); Result B = result(b, S, true); eqres("S07.rerun", A, B, "second run from the same inputs"); expect(S.pp->nf == nf, "S07.rerun", "number of cost evaluations differs: %ld and %ld", nf, S.pp->nf); intact("by a second run");
        obs(par["Verbose"] != S.par["Verbose"] ? "other verbosity" : "same verbosity"); if (other) { if (oit >= 0 && other->s->GetIter() != oit) fail("S07.rerun", "another solver object went on"); obs("other solver alive"); }
    }
    // the same object again: like a fresh object started where it stands (full-matrix methods keep their operator as initial one)
    if (!finite(A.x) || !(scond(*S.F, S.strip(a.s->GetXopt())) < 1e6)) return;
    { Variable xf = a.s->GetXopt(); View v = a.view(); std::unique_ptr<LinearOPE> H; if (v.H) { H.reset(new LinearOPE(*v.H)); H->CopyOnWrite(); }
        auto par = S.par; if (r.b(0.3)) { par["Verbose"] = r.i(0, 3); a.opt("Verbose").set(par["Verbose"]); }
        S.fresh(); Solver c = mksolver(S.kind, S.pp.get(), &xf, H.get()); c.set(par); c.s->Run(); Result C = result(c, S, true); if (r.b(0.4)) { pollute(r); config("%s", cfg.c_str()); }
        a.s->Run(); Result D = result(a, S, true); eqres("S07.reuse", C, D, "object run again against a fresh object"); intact("by running again"); obs("objects reused"); }
    sample("%s: %d iterations reproduced %d times", curconfig().c_str(), A.it, reps);
}

// ================================================================== S10: options by name
struct Capture { int fd, save; Capture() { fflush(stdout); save = dup(1); fd = memfd_create("out", 0); dup2(fd, 1); } std::string done() { fflush(stdout); dup2(save, 1); close(save); off_t n = lseek(fd, 0, SEEK_END); std::string s(n, 0); lseek(fd, 0, SEEK_SET); ssize_t k = read(fd, &s[0], n); (void)k; close(fd); return s; } };
static int count(const std::string &s, const char *w) { int n = 0; for (size_t p = s.find(w); p != std::string::npos; p = s.find(w, p + 1)) n++; return n; }
VH_SUITE(s10) {
    auto q = mkscn(r); Scn &S = *q; S.par["TimeBound"] = 1e4 + 0.25; auto par = S.par; par["TimeBound"] = 5e4 + r.u();
    Solver d = mksolver(S.kind, S.pp.get(), &S.x0); std::map<std::string, double> def; for (auto &o : d.opts) def[o.name] = o.get(); d.set(par); long vt = 0;
    S.fresh(); Solver m = mksolver(S.kind, S.pp.get(), &S.x0);
    if (r.b()) m.s->SetParams(par); else { std::vector<std::pair<std::string, double>> v(par.begin(), par.end()); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[r.i(0, (int)i - 1)]); for (auto &p : v) { PARAMSMAP one; one[p.first] = p.second; m.s->SetParams(one); } }
    auto cmp = [&](Solver &a, const char *when) { for (auto &o : a.opts) { double w = par.count(o.name) ? d.opt(o.name).get() : def[o.name], g = o.get(); expect(g == w, "S10.member", "%s: %s is %.17g instead of %.17g", when, o.name.c_str(), g, w); vt++; } };
    cmp(m, "set by name");
    // unknown names and close misspellings change nothing
    { PARAMSMAP u; static const char *names[] = {"NoSuchOption", "", "tolerance", "Tolerance ", "Max_Iterations", "LineSearch", "LS_Alpha", "Delta", "HasHHR", "ParamSet", "RPGVariant", "Variant"}; for (auto n : names) if (r.b()) u[n] = r.n() * 10; for (auto &o : m.opts) if (r.b(0.1)) u[o.name + "x"] = 3.5; m.s->SetParams(u); cmp(m, "after unknown names"); obs("unknown names", u.size()); }
    obs("members compared", vt);
    // options one by one, fractional and valid
    { Solver e = mksolver(S.kind, S.pp.get(), &S.x0); for (auto &o : e.opts) { double val = o.valid(r); PARAMSMAP one; one[o.name] = val; std::map<std::string, double> bef; for (auto &z : e.opts) bef[z.name] = z.get(); e.s->SetParams(one); double g = o.get(), before = bef[o.name]; o.set(val); expect(g == o.get(), "S10.member", "%s set to %.17g by name became %.17g", o.name.c_str(), val, g); (void)before; for (auto &z : e.opts) if (z.name != o.name) expect(z.get() == bef[z.name], "S10.other", "setting %s changed %s", o.name.c_str(), z.name.c_str()); obs("single options"); } }
    // the same run
    S.fresh(); Solver a = mksolver(S.kind, S.pp.get(), &S.x0); a.set(par); a.s->Run(); Result A = result(a, S, true); S.fresh(); Solver b = mksolver(S.kind, S.pp.get(), &S.x0); b.s->SetParams(par); b.s->Run(); Result B = result(b, S, true); eqres("S10.run", A, B, "options by name against options set directly");
    // parameter check
    { Solver e = mksolver(S.kind, S.pp.get(), &S.x0); e.set(par); if (e.has("LS_beta") && e.opt("LS_beta").get() <= e.opt("LS_alpha").get()) e.opt("LS_beta").set(0.95); if (e.has("LS_ratio2") && e.opt("LS_ratio2").get() < e.opt("LS_ratio1").get()) e.opt("LS_ratio2").set(e.opt("LS_ratio1").get());
        if (e.has("Maxstepsize") && e.opt("Maxstepsize").get() < e.opt("Minstepsize").get()) e.opt("Minstepsize").set(1e-15); if (e.has("initial_Delta")) { double &&i = e.opt("initial_Delta").get(); e.opt("maximum_Delta").set(std::max(i, e.opt("maximum_Delta").get())); e.opt("minimum_Delta").set(std::min(i / 2, e.opt("minimum_Delta").get())); }
        if (e.has("Max_Inner_Iter")) e.opt("Min_Inner_Iter").set(std::min(e.opt("Min_Inner_Iter").get(), e.opt("Max_Inner_Iter").get()));
        auto check = [&] { std::map<std::string, double> bef; for (auto &z : e.opts) bef[z.name] = z.get(); Capture c; e.s->CheckParams(); std::string s = c.done(); for (auto &z : e.opts) expect(z.get() == bef[z.name], "S10.check.silent", "the parameter check changed %s", z.name.c_str()); return s; };
        std::string t = check(); expect(count(t, "[NO]") == 0, "S10.check.valid", "valid settings reported as invalid: %s", t.c_str()); expect(count(t, "[YES]") >= 8, "S10.check.valid", "parameter check reports only %d settings", count(t, "[YES]")); obs("valid settings checked");
        for (auto &o : e.opts) if (!o.bad.empty() && !(sanitized() && o.en)) { double keep = o.get(), bad = r.pick(o.bad); o.set(bad); std::string w = check(); expect(count(w, "[NO]") >= 1, "S10.check.invalid", "%s=%g not reported", o.name.c_str(), bad); size_t at = w.find(o.name); std::string alt = o.name; for (auto &ch : alt) if (ch == '_') ch = ' '; if (at == std::string::npos) at = w.find(alt); size_t br = at == std::string::npos ? at : w.find("[", at); expect(br != std::string::npos && w.compare(br, 4, "[NO]") == 0, "S10.check.invalid", "%s=%g: the report does not name it", o.name.c_str(), bad); o.set(keep); obs("invalid settings checked"); } }
    sample("%s: %d options, %d iterations", curconfig().c_str(), (int)m.opts.size(), A.it);
}

// ================================================================== S11: known solutions
struct PathMon : MonB { using MonB::MonB; V g, f; int lsfail = 0; void preStop(const View &v) { g.push_back(*v.ngf2); f.push_back(*v.f2); if (v.ls && v.lsst != LSSM_SUCCESS) lsfail++; } };
VH_SUITE(s11) {
    for (int tries = 0; tries < 400; tries++) {
        std::unique_ptr<Scn> q(new Scn); Scn &S = *q; int k = S.kind = r.i(0, K_COUNT - 1); bool needHess = k == K_RNEWTON || k == K_RTRNEWTON;
        int pk = r.picki({PK_EUC, PK_BROCKETT, PK_CBROCKETT, PK_GRASSRQ, PK_PROD, PK_KARCHER, PK_LYAP, PK_PHASE, PK_WEIGHT, PK_COMPL, PK_DECON});
        S.pf = mkproblem(r, pk, nullptr, true); S.F = S.pf->fix.get(); S.M = S.pf->M; S.P = S.pf->P.get(); S.pname = S.pf->name; Fix &F = *S.F; Manifold *M = S.M;
        if ((isFull(k) && !F.tranH) || ((k == K_RTRSR1 || k == K_LRTRSR1) && !F.invVT) || (k == K_RWRBFGS && !F.cotan) || (needHess && !S.pf->hess) || M->GetIntrDim() < 1 || F.dim > 40) continue;
        Variable xs(*S.pf->xs); S.nostrip = F.name.find("FixedRankE") != std::string::npos; if (F.feas(xs) > 1e-9 || F.condition(xs) > 20) continue;
        // Hessian at the solution
        std::vector<Vector> B; Variable xh(xs); Vector g0(M->GetEMPTY()); S.P->f(xh); S.P->Grad(xh, &g0); int d = F.dim; for (int i = 0; i < d; i++) B.push_back(F.W(xh, F.tvs(r, xh, 1.0)));
        if (std::sqrt(M->Metric(xh, g0, g0)) > 1e-7 * (1 + std::fabs(S.pf->fmin))) { fail("S11.stationary", "%s: gradient norm %.3g at the known solution", S.pname.c_str(), std::sqrt(M->Metric(xh, g0, g0))); return; }
        if (!S.pf->hess) continue;
        Mat G(d, d), Hm(d, d); for (int j = 0; j < d; j++) { Vector h(M->GetEMPTY()); S.P->HessianEta(xh, B[j], &h); for (int i = 0; i < d; i++) { G(i, j) = M->Metric(xh, B[i], B[j]); Hm(i, j) = M->Metric(xh, B[i], h); } }
        V ge, he; Mat U; symeig(sym(G), ge, U); if (!(ge[0] > 1e-10 * ge.back())) continue; Mat R = funsym(sym(G), [](double t) { return 1 / std::sqrt(t); }); symeig(sym(R * sym(Hm) * R), he, U); double lmin = he[0], lmax = he.back(); if (!(lmax > 1e-8)) continue; expect(lmin > -1e-7 * lmax, "S11.minimiser", "Hessian at the known minimiser has eigenvalue %.3g (largest %.3g)", lmin, lmax); if (!(lmin > 0.03 * lmax) || !(lmin > 0.02 && lmax < 200)) continue;
        // start near the solution
        double size = r.pickd({0.02, 0.1}); Variable x0(xs); Vector e = F.W(xs, F.tvs(r, xs, size)); double en = std::sqrt(M->Metric(xs, e, e)); M->Retraction(xs, e, &x0); S.x0 = S.nostrip ? x0 : Variable(fromflat(x0, raw(x0)));
        bool dm = dotmetric(r, F, S.strip(S.x0)); if ((isFull(k) || k == K_LRTRSR1) && !dm) continue; if (F.condition(S.x0) > 50) continue;
        S.fresh(); PathMon m(S, r); auto &P = S.par; P["Verbose"] = 0; P["Max_Iteration"] = k == K_RSD || k == K_RTRSD ? 3000 : 500; double tol = P["Tolerance"] = 1e-4; P["Stop_Criterion"] = SM_GRAD_F_0;
        if (!isTR(k)) { bool cond = F.diffSame; P["LineSearch_LS"] = cond ? r.i(0, 3) : 0; if (P["LineSearch_LS"] == LSSM_EXACT && k != K_RCG && r.b(0.5)) P["LineSearch_LS"] = 0; if (k == K_RSD || k == K_RCG) P["InitSteptype"] = r.picki({LSSM_BBSTEP, LSSM_QUADINT, LSSM_QUADINTMOD}); if (k == K_RCG) { P["RCGmethod"] = r.i(0, 5); P["LS_beta"] = 0.1; if (P["RCGmethod"] == 0 && P["LineSearch_LS"] < 2) P["RCGmethod"] = 1; } }
        else P["initial_Delta"] = r.pickd({1, 0.3}); if (k == K_LRBFGS || k == K_LRTRSR1) P["LengthSY"] = r.picki({2, 4, 8});
        std::string det = S.pf->det; for (auto &p : P) { char b[64]; snprintf(b, sizeof b, " %s=%.4g", p.first.c_str(), p.second); det += b; } config("%s %s %s", kname[k], S.pname.c_str(), F.name.c_str()); detail("%s start %.3g away, Hessian %.3g..%.3g dim %d", det.c_str(), en, lmin, lmax, d); sig(std::string(kname[k]) + " " + S.pname + " " + F.name);
        Solver o = start(S, &m, P); SolversSM &s = *o.s; s.Run(); obs((std::string("runs of ") + kname[k]).c_str()); obs((std::string("solutions of ") + S.pname).c_str());
        double gap = s.Getfinalfun() - S.pf->fmin, ng = s.Getnormgf(), sc = std::fabs(S.pf->fmin) + std::fabs(m.f[0]) * 1e-3 + 1e-300; int it = s.GetIter(); View v = o.view();
        expect(gap > -1e-11 * sc - 1e-13, "S11.below", "cost %.17g below the optimum %.17g", s.Getfinalfun(), S.pf->fmin);
        bool conv = s.Getnormgfgf0() <= tol || ng * ng / lmin < 200 * 2.2e-16 * std::fabs(S.pf->fmin); expect(conv, "S11.converged", "stopped after %d iterations with gradient ratio %.3g (cost %.3g above the optimum, first %.3g, line search status %d)", it, s.Getnormgfgf0(), gap, m.f[0] - S.pf->fmin, v.lsst);
        if (conv) { expect(gap <= 4 * ng * ng / lmin + 1e-11 * sc + 1e-13, "S11.optimal", "cost %.6g above the optimum with gradient norm %.3g (curvature %.3g)", gap, ng, lmin); obs("optima reached");
            int lim = k == K_RNEWTON || k == K_RTRNEWTON ? 20 : k == K_RTRSD || k == K_RSD ? 3000 : k == K_RCG ? 500 : 100; expect(it <= lim || s.Getnormgfgf0() > tol, "S11.rate", "%d iterations", it); if (it > 0) { char b[64]; snprintf(b, sizeof b, "iterations of %s", kname[k]); obs(b, it); } }
        sample("%s: %d iterations, gap %.3g, gradient ratio %.3g", curconfig().c_str(), it, gap, s.Getnormgfgf0()); return;
    }
    obs("no instance found");
}
