#include "solv.h"
namespace vh {
const char *kname[K_COUNT] = {"RSD", "RCG", "RNewton", "RBroydenFamily", "RBFGS", "RWRBFGS", "LRBFGS", "RTRSD", "RTRNewton", "RTRSR1", "LRTRSR1"};
Vector &PP::PreConditioner(const Variable &x, const Vector &e, Vector *r) const {
    if (prox) return p->PreConditioner(x, e, r);
    if (!pre) { *r = e; return *r; }
    Vector a(m->GetEMPTYEXTR()), w(m->GetEMPTY()); m->ExtrProjection(x, pa, &a); if (m->GetIsIntrinsic()) m->ObtainIntr(x, a, &w); else w = a;
    double aa = m->Metric(x, w, w), ea = m->Metric(x, e, w); Vector o(e);
    if (aa > 1e-12) { m->VectorLinearCombination(x, 1.0, e, -pscale * ea / aa, w, &o); }
    *r = o; return *r;
}
typedef std::vector<Opt> Opts;
template <class T> static void add(Opts &o, const char *n, T *p, std::function<double(Rng &)> valid, std::vector<double> bad = {}) {
    o.push_back({n, [p] { return rdnum(p); }, [p](double v) { *p = static_cast<T>(std::is_floating_point<T>::value ? v : (double)(long)v); }, valid, bad, std::is_enum<T>::value || std::is_same<T, bool>::value});
}
#define G(e) [](Rng &r) -> double { return (e); }
static void base(Opts &o, SolversSM *s) {
    add(o, "Tolerance", &s->Tolerance, G(std::pow(10.0, -r.u() * 7 - 3)), {0, -1}); add(o, "TimeBound", &s->TimeBound, G(1e4 + r.u() * 1e6), {0, -3});
    add(o, "Max_Iteration", &s->Max_Iteration, G(r.i(1, 30)), {0, -2}); add(o, "Min_Iteration", &s->Min_Iteration, G(r.i(0, 5)), {-1, 100000}); add(o, "OutputGap", &s->OutputGap, G(r.i(1, 5)), {0, -1}); add(o, "Verbose", &s->Verbose, G(r.i(0, 3)), {4, 7, -1});
    add(o, "Stop_Criterion", &s->Stop_Criterion, G(r.i(0, 2)), {3, 9, -1}); add(o, "Accuracy", &s->Accuracy, G(r.pickd({0, 1e-6, 1e-3, 0.1, 0.5})), {-0.1, 1.5});
}
static void lsopts(Opts &o, SolversSMLS *s) {
    add(o, "LineSearch_LS", &s->LineSearch_LS, G(r.i(0, 3)), {5, 8, -1}); add(o, "InitSteptype", &s->InitSteptype, G(r.i(0, 4)), {5, 9, -2});
    add(o, "LS_alpha", &s->LS_alpha, G(r.pickd({1e-4, 1e-2, 0.1, 0.3})), {0, 0.5, 0.9}); add(o, "LS_beta", &s->LS_beta, G(r.pickd({0.999, 0.9, 0.7, 0.5})), {1, 1.5});
    add(o, "Minstepsize", &s->Minstepsize, G(r.pickd({2.3e-16, 1e-12, 1e-6, 1e-3})), {0, -1, 1e12}); add(o, "Maxstepsize", &s->Maxstepsize, G(r.pickd({1e10, 1e3, 4, 0.9})), {0, -1});
    add(o, "LS_ratio1", &s->LS_ratio1, G(0.05 + 0.4 * r.u()), {0, -0.1, 0.99}); add(o, "LS_ratio2", &s->LS_ratio2, G(0.46 + 0.49 * r.u()), {1, 1.4, 0.01});
    add(o, "Initstepsize", &s->Initstepsize, G(std::pow(10.0, r.u() * 4 - 3)), {0, -1}); add(o, "Finalstepsize", &s->Finalstepsize, G(r.pickd({-1, 1, 0.3})));
    add(o, "Num_pre_funs", &s->Num_pre_funs, G(r.i(1, 4)), {0, -1}); add(o, "PreFunsAccuracy", &s->PreFunsAccuracy, G(r.pickd({1e6, 0.5, 1e-2, 0})), {-1});
    add(o, "Num_pre_BB", &s->Num_pre_BB, G(r.i(0, 3)), {-1}); add(o, "BBratio", &s->BBratio, G(r.pickd({0, 0.15, 0.8, 1})), {1.5, -0.5}); add(o, "IsPureLSInput", &s->IsPureLSInput, G(r.i(0, 1)));
}
static void tropts(Opts &o, SolversSMTR *s) {
    add(o, "Acceptence_Rho", &s->Acceptence_Rho, G(r.pickd({0.1, 1e-3, 0.24})), {0, 0.25, 0.6}); add(o, "Shrinked_tau", &s->Shrinked_tau, G(0.1 + 0.8 * r.u()), {0, 1, 2}); add(o, "Magnified_tau", &s->Magnified_tau, G(1.1 + 3 * r.u()), {1, 0.5});
    add(o, "minimum_Delta", &s->minimum_Delta, G(r.pickd({2.3e-16, 1e-8, 1e-3})), {0, -1, 1e7}); add(o, "maximum_Delta", &s->maximum_Delta, G(r.pickd({1e4, 10, 1.5})), {0, -1}); add(o, "useRand", &s->useRand, G(r.i(0, 1)));
    add(o, "Max_Inner_Iter", &s->Max_Inner_Iter, G(r.picki({1000, 1000, 20, 3, 1})), {-1}); add(o, "Min_Inner_Iter", &s->Min_Inner_Iter, G(r.picki({0, 0, 1, 2})), {-1, 5000});
    add(o, "theta", &s->theta, G(r.pickd({1, 0.1, 0.5, 0})), {-1}); add(o, "kappa", &s->kappa, G(r.pickd({0.1, 0.5, 0.9, 1e-3})), {0, 1, 1.5}); add(o, "initial_Delta", &s->initial_Delta, G(std::pow(10.0, r.u() * 3 - 2)), {0, -1});
}
template <class Q> static void qnopts(Opts &o, Q *s) { add(o, "isconvex", &s->isconvex, G(r.i(0, 1))); add(o, "nu", &s->nu, G(r.pickd({1e-4, 1e-2, 1e-6, 0.3})), {-1, 1}); add(o, "mu", &s->mu, G(r.pickd({1, 0.5, 0, 2})), {-1}); }
template <class T> static Solver wrap(int k, T *t) {
    Solver s; s.kind = k; s.s.reset(t); s.mon = &t->mon; s.view = [t] { return t->view(); }; base(s.opts, t);
    return s;
}
Solver mksolver(int kind, const Problem *p, const Variable *x, LinearOPE *H) {
    switch (kind) {
    case K_RSD: { auto *t = new MoLS<RSD, K_RSD>(p, x); Solver s = wrap(kind, t); lsopts(s.opts, t); return s; }
    case K_RCG: { auto *t = new MoLS<RCG, K_RCG>(p, x); Solver s = wrap(kind, t); lsopts(s.opts, t); add(s.opts, "RCGmethod", &t->RCGmethod, G(r.i(0, 5)), {6, 11, -1}); return s; }
    case K_RNEWTON: { auto *t = new MoLS<RNewton, K_RNEWTON>(p, x); Solver s = wrap(kind, t); lsopts(s.opts, t); add(s.opts, "useRand", &t->useRand, G(r.i(0, 1))); add(s.opts, "Max_Inner_Iter", &t->Max_Inner_Iter, G(r.picki({1000, 1000, 20, 3, 1})), {-1}); add(s.opts, "Min_Inner_Iter", &t->Min_Inner_Iter, G(r.picki({0, 0, 1, 2})), {-1, 5000}); add(s.opts, "theta", &t->theta, G(r.pickd({1, 1.5, 2})), {0.5}); add(s.opts, "kappa", &t->kappa, G(r.pickd({0.1, 0.5, 0.9, 1e-3})), {0, 1, 1.5}); return s; }
    case K_RBROY: { auto *t = new MoLS<RBroydenFamily, K_RBROY>(p, x, H); Solver s = wrap(kind, t); lsopts(s.opts, t); qnopts(s.opts, t); return s; }
    case K_RBFGS: { auto *t = new MoLS<RBFGS, K_RBFGS>(p, x, H); Solver s = wrap(kind, t); lsopts(s.opts, t); qnopts(s.opts, t); return s; }
    case K_RWRBFGS: { auto *t = new MoLS<RWRBFGS, K_RWRBFGS>(p, x, H); Solver s = wrap(kind, t); lsopts(s.opts, t); qnopts(s.opts, t); return s; }
    case K_LRBFGS: { auto *t = new MoLS<LRBFGS, K_LRBFGS>(p, x); Solver s = wrap(kind, t); lsopts(s.opts, t); qnopts(s.opts, t); add(s.opts, "LengthSY", &t->LengthSY, G(r.i(0, 6)), {-1}); add(s.opts, "LMrestart", &t->LMrestart, G(r.i(0, 1))); return s; }
    case K_RTRSD: { auto *t = new MoTR<RTRSD, K_RTRSD>(p, x); Solver s = wrap(kind, t); tropts(s.opts, t); return s; }
    case K_RTRNEWTON: { auto *t = new MoTR<RTRNewton, K_RTRNEWTON>(p, x); Solver s = wrap(kind, t); tropts(s.opts, t); return s; }
    case K_RTRSR1: { auto *t = new MoTR<RTRSR1, K_RTRSR1>(p, x, H); Solver s = wrap(kind, t); tropts(s.opts, t); return s; }
    case K_LRTRSR1: { auto *t = new MoTR<LRTRSR1, K_LRTRSR1>(p, x); Solver s = wrap(kind, t); tropts(s.opts, t); add(s.opts, "LengthSY", &t->LengthSY, G(r.i(0, 6)), {-1}); add(s.opts, "LMrestart", &t->LMrestart, G(r.i(0, 1))); return s; }
    }
    abort();
}
#undef G
// does the metric of the working representation equal the plain inner product at x?
bool dotmetric(Rng &r, Fix &F, const Variable &x) {
    for (int t = 0; t < 3; t++) { Vector a = F.W(x, F.tvs(r, x, 1.0)), b = F.W(x, F.tvs(r, x, 1.0)); V av = raw(a), bv = raw(b); double m = F.M->Metric(x, a, b), m2 = F.M->Metric(x, a, a); if (std::fabs(m - vdot(av, bv)) > 1e-10 * (vn(av) * vn(bv) + 1e-300) || std::fabs(m2 - vdot(av, av)) > 1e-10 * m2) return false; }
    return true;
}
std::unique_ptr<Scn> mkscn(Rng &r, int kind, int want) {
    for (int tries = 0; tries < 2000; tries++) {
        std::unique_ptr<Scn> q(new Scn); Scn &s = *q; s.kind = kind < 0 ? r.i(0, K_COUNT - 1) : kind; int k = s.kind;
        bool needTranH = isFull(k), needInv = k == K_RTRSR1 || k == K_LRTRSR1 || false, needCot = k == K_RWRBFGS, needHess = k == K_RNEWTON || k == K_RTRNEWTON, needDot = isFull(k) || k == K_LRTRSR1;
        auto ok = [&](Fix &f) { return (!needTranH || f.tranH) && (!needInv || f.invVT) && (!needCot || f.cotan) && f.name.find("SphereTx") == std::string::npos; };
        double c = 1;
        if (r.b(0.6)) {
            s.fix0 = mkfix(r, r.b(0.3) ? 0 : F_NOTX); if (!ok(*s.fix0)) continue; s.F = s.fix0.get(); s.M = s.F->M; s.x0 = mkpoint(r, *s.F, c); s.tp.reset(new TestProblem(r, s.F, s.x0, r.b(0.85))); s.P = s.tp.get(); s.pname = "polynomial";
        } else {
            int pk = r.picki({PK_EUC, PK_BROCKETT, PK_CBROCKETT, PK_GRASSRQ, PK_PROD, PK_KARCHER, PK_LYAP, PK_PHASE, PK_WEIGHT, PK_COMPL, PK_DECON});
            s.pf = mkproblem(r, pk); if (!ok(*s.pf->fix) || !s.pf->smooth || (needHess && !s.pf->hess)) continue; s.F = s.pf->fix.get(); s.M = s.pf->M; s.P = s.pf->P.get(); s.pname = s.pf->name; s.x0 = s.pf->pt(r, c);
        }
        if (s.F->condition(s.x0) > 1e3) continue;
        s.nostrip = s.F->name.find("FixedRankE") != std::string::npos;
        if (!s.nostrip) s.x0 = s.strip(s.x0);
        s.dotmetric = dotmetric(r, *s.F, s.strip(s.x0)); if (needDot && !s.dotmetric) continue;
        if ((want & W_LSCOND) && !s.F->diffSame) continue;
        s.x0raw = raw(s.x0); s.flag_intr = s.M->GetIsIntrinsic(); s.flag_hhr = s.M->GetHasHHR(); s.fresh();
        if (!(want & W_NOPRE) && r.b(0.25) && (k == K_RSD || k == K_RCG || k == K_RNEWTON || k == K_LRBFGS || k == K_RTRNEWTON)) { s.pre = true; s.pp->pre = true; s.pp->pa = s.F->amb(r, s.x0); s.pp->pscale = r.pickd({0.5, 0.9, -1.0, 2.5}); if (s.pp->pscale == 2.5 && k != K_RSD && k != K_RCG) s.pp->pscale = 0.5; }
        // options
        Solver o = mksolver(k, s.pp.get(), &s.x0); double dens = r.pickd({0.15, 0.5, 0.9});
        for (auto &p : o.opts) if (r.b(dens)) s.par[p.name] = p.valid(r);
        { Rng q = r; bool lng = (q.next() >> 40) % 25 == 0; s.par["Max_Iteration"] = r.i(3, lng ? 200 : thorough() ? 60 : 30); } if (s.par.count("Min_Iteration")) s.par["Min_Iteration"] = std::min(s.par["Min_Iteration"], s.par["Max_Iteration"]);
        if (!s.par.count("Verbose")) s.par["Verbose"] = r.b() ? 0 : 2;
        if (!isTR(k)) {
            bool cond = s.F->diffSame && (r.b(0.6) || (want & W_LSCOND)); int ls = cond ? r.i(0, 3) : 0; s.par["LineSearch_LS"] = ls;
            if (!s.F->diffSame) { s.par["LS_ratio1"] = 0.1; s.par["LS_ratio2"] = 0.9; }   // simple backtracking also evaluates the slope
            else if (ls == 0 && r.b(0.4)) { s.par["LS_ratio1"] = s.par["LS_ratio2"] = 0.3 + 0.4 * r.u(); }
            double a = s.par.count("LS_alpha") ? s.par["LS_alpha"] : 1e-4, b = s.par.count("LS_beta") ? s.par["LS_beta"] : 0.999; if (b <= a) s.par["LS_beta"] = 0.9;
            double mn = s.par.count("Minstepsize") ? s.par["Minstepsize"] : 2e-16; (void)mn;
            if (s.par.count("InitSteptype") && s.par["InitSteptype"] == LSSM_EXTRBBSTEP && s.F->pointIsProduct) s.par["InitSteptype"] = LSSM_BBSTEP;
        }
        if (k == K_RWRBFGS && false) continue;
        std::string d = s.F->det; for (auto &p : s.par) { char b[64]; snprintf(b, sizeof b, " %s=%.4g", p.first.c_str(), p.second); d += b; }
        config("%s %s %s", kname[k], s.pname.c_str(), s.F->name.c_str()); detail("%s", d.c_str()); sig(std::string(kname[k]) + " " + s.pname + " " + s.F->name);
        obs((std::string("runs of ") + kname[k]).c_str());
        return q;
    }
    abort();
}
}
