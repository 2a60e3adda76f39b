// E01..E05: storage, field cache, algebra, factorizations, transforms.
#include "vh.h"
using namespace vh;
using namespace ROPTLIB;
#define EPS 2.3e-16

static realdpcomplex zc(cd z) { realdpcomplex r; r.r = z.real(); r.i = z.imag(); return r; }
static cd rc(Rng &r, bool cx) { double a = r.n(), b = r.n(); return cx ? cd(a, b) : cd(a, 0); }
static double scl(Rng &r) { return r.b(0.7) ? 1.0 : std::pow(10.0, r.i(-8, 8)); }

// ============================================================================ E01 / E02: histories
struct Slot {
    Element e;                       // the real object
    int row, col, num; bool cx;      // model shape
    std::vector<double> w;           // model storage (bitwise)
    std::map<std::string, Mat> att;  // attached data that must still be readable
    bool hasatt = false;
};
static Mat val(const Slot &s) { Mat m(s.row, s.col * s.num, s.cx); for (size_t i = 0; i < m.a.size(); i++) m.a[i] = s.cx ? cd(s.w[2 * i], s.w[2 * i + 1]) : cd(s.w[i], 0); return m; }

struct Pool {
    std::vector<Slot *> s;
    std::vector<std::pair<Element, std::vector<double>>> sharers;   // silent extra copies
    Rng &r; bool fields; std::string lastop;
    Pool(Rng &r_, bool f) : r(r_), fields(f) {}
    ~Pool() { for (auto p : s) delete p; }

    void verify(int touched, const Mat *expect, const char *op, double tol = 1e-12) {
        for (int i = 0; i < (int)s.size(); i++) {
            Slot &q = *s[i];
            obs("object-read-back");
            bool shapeok = q.e.Getrow() == q.row && q.e.Getcol() == q.col && q.e.Getnum() == q.num && q.e.Getiscomplex() == q.cx && q.e.Getlength() == q.row * q.col * q.num * (q.cx ? 2 : 1);
            if (!shapeok) { config("hist/%s", op); fail(i == touched ? "shape" : "alias-shape", "object %d is %dx%dx%d cx%d len %d, model %dx%dx%d cx%d (touched %d)", i, (int)q.e.Getrow(), (int)q.e.Getcol(), (int)q.e.Getnum(), q.e.Getiscomplex(), (int)q.e.Getlength(), q.row, q.col, q.num, q.cx, touched); resync(i); continue; }
            std::vector<double> now = raw(q.e);
            if (i == touched) {
                if (expect) {
                    Mat g = of(q.e);
                    double er = rel(g, *expect, 1e-300);
                    if (nrm(*expect) == 0) er = nrm(g);
                    if (!(er <= tol)) { config("hist/%s", op); fail("value", "object %d shape %s after %s: relative difference %.3e from the deep-copy model", i, shape(g).c_str(), op, er); }
                }
                q.w = now;
            } else if (now != q.w) { config("hist/%s", op); fail("alias-value", "object %d changed by %s applied to object %d", i, op, touched); q.w = now; }
        }
        for (auto &x : sharers) { obs("sharer-read-back"); if (raw(x.first) != x.second) { config("hist/%s", op); fail("alias-sharer", "a shared copy changed by %s on object %d", op, touched); x.second = raw(x.first); } }
        if (fields) for (int i = 0; i < (int)s.size(); i++) audit(i, touched == i, op);
    }
    void resync(int i) { Slot &q = *s[i]; q.row = q.e.Getrow(); q.col = q.e.Getcol(); q.num = q.e.Getnum(); q.cx = q.e.Getiscomplex(); q.w = raw(q.e); }
    // every cached factor that is present must belong to the present value
    void audit(int i, bool changed, const char *op) {
        Slot &q = *s[i]; Element &e = q.e; Mat A = val(q); if (q.num != 1) { }
        config("fields/%s", op); detail("object %d %s", i, shape(A).c_str()); long f0 = nfail();
        double n = std::max(nrm(A), 1e-300); int m = A.m, k = A.n, mn = std::min(m, k);
        auto chk = [&](const char *nm, const Mat &B, double tol = 1e-10) { obs("cached-factor-audited"); double er = B.a.size() == A.a.size() ? nrm(B - A) / n : HUGE_VAL; if (!(er <= tol)) fail((std::string("stale:") + nm).c_str(), "factor present after %s rebuilds the value with relative error %.2e", op, er); };
        auto dimok = [&](const char *nm, const Mat &B, int rr, int cc) { if (B.m == rr && B.n == cc) return true; fail((std::string("stale:") + nm).c_str(), "factor present after %s is %s for a %s value", op, shape(B).c_str(), shape(A).c_str()); return false; };
        if (e.FieldsExist("_Q") && e.FieldsExist("_R")) { Mat Q = of(e.Field("_Q")), R = of(e.Field("_R")); if (dimok("QR", Q, m, mn) && dimok("QR", R, mn, k)) chk("QR", Q * R); }
        if (e.FieldsExist("_U") && e.FieldsExist("_S") && e.FieldsExist("_Vt")) { Mat U = of(e.Field("_U")), S = of(e.Field("_S")), V = of(e.Field("_Vt")); if (dimok("SVD", U, m, mn) && dimok("SVD", V, mn, k)) { Mat D(mn, mn, A.cx); for (int j = 0; j < mn; j++) D(j, j) = S.a[j]; chk("SVD", U * D * V); } }
        if (e.FieldsExist("_LU") && m == k) { Mat F = of(e.Field("_LU")); if (dimok("LU", F, m, m)) { Mat L = Mat::eye(m, A.cx), U(m, m, A.cx); for (int j = 0; j < m; j++) for (int t = 0; t < m; t++) if (t > j) L(t, j) = F(t, j); else U(t, j) = F(t, j); Mat B = L * U; const integer *p = (const integer *)e.Field("_P").ObtainReadData(); bool ok = true; for (int j = m - 1; j >= 0; j--) { int t = (int)p[j] - 1; if (t < 0 || t >= m) { ok = false; break; } if (t != j) for (int c = 0; c < m; c++) std::swap(B(t, c), B(j, c)); } if (ok) chk("LU", B); else fail("stale:LU", "pivots out of range"); } }
        else if (e.FieldsExist("_LU")) fail("stale:LU", "LU factor present on a non-square value after %s", op);
        if (e.FieldsExist("_L")) { Mat L = of(e.Field("_L")); if (m != k) fail("stale:Chol", "Cholesky factor present on a non-square value after %s", op); else if (dimok("Chol", L, m, m)) { Mat S = A; for (int j = 0; j < m; j++) { for (int t = 0; t < j; t++) S(t, j) = std::conj(A(j, t)); S(j, j) = A(j, j).real(); } std::vector<double> w; Mat V; symeig(S, w, V); if (w[0] > 1e-12 * std::fabs(w.back())) { obs("cached-factor-audited"); double er = nrm(L * H(L) - S) / n; if (!(er <= 1e-10)) fail("stale:Chol", "factor present after %s: relative error %.2e", op, er); } } }
        if (e.FieldsExist("_EigVal") && e.FieldsExist("_EigVec")) { Mat W = of(e.Field("_EigVal")), V = of(e.Field("_EigVec")); if (m != k) fail("stale:Eig", "eigen factor on a non-square value after %s", op); else if (dimok("Eig", V, m, m)) { Mat D(m, m, A.cx); for (int j = 0; j < m; j++) D(j, j) = W.a[j]; Mat S = A; for (int j = 0; j < m; j++) { for (int t = 0; t < j; t++) S(t, j) = std::conj(A(j, t)); S(j, j) = A(j, j).real(); } obs("cached-factor-audited"); double er = nrm(V * D * H(V) - S) / n; if (!(er <= 1e-10)) fail("stale:Eig", "factor present after %s: relative error %.2e", op, er); } }
        if (e.FieldsExist("_SchurForm") && e.FieldsExist("_SchurVec")) { Mat T = of(e.Field("_SchurForm")), V = of(e.Field("_SchurVec")); if (dimok("Schur", T, m, k) && dimok("Schur", V, m, m)) chk("Schur", V * T * H(V)); }
        if (e.FieldsExist("_HHR")) { Mat F = of(e.Field("_HHR")); if (dimok("HHR", F, m, k)) { double er = 0; for (int j = 0; j < k; j++) { double a = 0, b = 0; for (int t = 0; t < m; t++) { a += std::norm(A(t, j)); if (t <= j) b += std::norm(F(t, j)); } er = std::max(er, std::fabs(std::sqrt(a) - std::sqrt(b)) / n); } obs("cached-factor-audited"); if (!(er <= 1e-10)) fail("stale:HHR", "column norms of the reflector factor differ from the value's by %.2e after %s", er, op); } }
        // attached data
        if (e.FieldsExist("_user")) {
            obs("attachment-audited");
            if (changed && q.hasatt) fail("stale:attachment", "attached data survived %s", op);
            else if (!q.hasatt) { if (!changed) fail("attachment-appeared", "attached data present on an object that has none after %s", op); }
            else if (rel(of(e.Field("_user")), q.att["_user"], 1e-300) > 0) fail("attachment-changed", "attached data altered by %s", op);
        } else if (!changed && q.hasatt) { fail("attachment-lost", "attached data lost by %s on another object", op); q.hasatt = false; }
        if (changed) q.hasatt = e.FieldsExist("_user") && q.hasatt;
        if (nfail() > f0) { e.RemoveAllFromFields(); q.hasatt = false; }   // report each corruption once
    }
};
static Element byvalue(Element a) { a.ScalarTimesThis(3.0); a.ObtainWritePartialData()[0] = 7; return a; }

static void newslot(Pool &P, int row, int col, int num, bool cx, bool spd) {
    Slot *q = new Slot; q->row = row; q->col = col; q->num = num; q->cx = cx;
    Mat A = spd && row == col && num == 1 ? randspd(P.r, row, cx) : randm(P.r, row, col * num, cx);
    Element t(row, col, num, cx); double *p = t.ObtainWriteEntireData(); for (size_t i = 0; i < A.a.size(); i++) if (cx) { p[2 * i] = A.a[i].real(); p[2 * i + 1] = A.a[i].imag(); } else p[i] = A.a[i].real();
    q->e = t; q->w = raw(q->e); P.s.push_back(q);
}

static void history(Rng &r, int idx, bool fields) {
    Pool P(r, fields);
    bool cx = r.b(0.4); int K = r.i(3, 5), n = r.i(1, 4);
    for (int i = 0; i < K; i++) {
        int row = n, col = n, num = 1;
        if (r.b(fields ? 0.3 : 0.5)) { row = r.i(1, 4); col = r.i(1, 4); if (!fields && r.b(0.2)) num = r.i(1, 3); }
        newslot(P, row, col, num, r.b(0.8) ? cx : !cx, fields && r.b(0.7));
    }
    int steps = fields ? 60 : 80; if (thorough()) steps *= 2;
    std::string hist;
    for (int t = 0; t < steps; t++) {
        int i = r.i(0, K - 1), j = r.i(0, K - 1), k = r.i(0, K - 1);
        Slot &a = *P.s[i], &b = *P.s[j], &c = *P.s[k];
        bool flat = a.num == 1 && b.num == 1 && c.num == 1;
        Mat A = val(a), B = val(b), C = val(c), X; const char *op = nullptr; int touched = i; bool have = true; double tol = 1e-12;
        double al = r.picki({0, 1, 2}) == 0 ? 1.0 : r.n(), be = r.picki({0, 1, 2}) == 0 ? 0.0 : r.n();
        int o = r.i(0, fields ? 46 : 36);
        auto shp = [&](Slot &d, const Slot &f) { d.row = f.row; d.col = f.col; d.num = f.num; d.cx = f.cx; };
        switch (o) {
        case 0: case 1: op = "assign"; a.e = b.e; X = B; shp(a, b); if (i != j) { a.hasatt = b.hasatt; a.att = b.att; } if (fields) { // assignment carries the source's attachment
                a.w = b.w; P.verify(-1, nullptr, "assign"); op = nullptr; } break;
        case 2: op = "copyto"; if (i == j) { have = false; op = nullptr; break; } b.e.CopyTo(a.e); X = B; shp(a, b); a.hasatt = b.hasatt; a.att = b.att; if (fields) { a.w = b.w; P.verify(-1, nullptr, "copyto"); op = nullptr; } break;
        case 3: { op = "copyconstruct"; Slot *d = new Slot{Element(b.e), b.row, b.col, b.num, b.cx, b.w, b.att, b.hasatt}; if (i == j) { delete d; op = nullptr; break; } delete P.s[i]; P.s[i] = d; X = B; if (fields) { P.verify(-1, nullptr, "copyconstruct"); op = nullptr; } break; }
        case 4: op = "passbyvalue"; { Element rr = byvalue(a.e); } touched = -1; break;
        case 5: op = "ScalarTimesThis"; if (a.cx && r.b()) { cd z = rc(r, true); a.e.ScalarTimesThis(zc(z)); X = z * A; } else { a.e.ScalarTimesThis(al); X = cd(al) * A; } break;
        case 6: if (b.w.size() != a.w.size() || a.cx != b.cx || a.num != b.num || a.row != b.row) break; op = "AlphaXaddThis"; if (a.cx && r.b()) { cd z = rc(r, true); a.e.AlphaXaddThis(zc(z), b.e); X = A + z * B; } else { a.e.AlphaXaddThis(al, b.e); X = A + cd(al) * B; } break;
        case 7: { // gemm into object i
            if (!flat || i == j || i == k || a.cx != b.cx || a.cx != c.cx) break;
            bool tb = r.b(), tc = r.b(); Mat L = tb ? H(B) : B, R = tc ? H(C) : C; if (L.n != R.m || L.m != A.m || R.n != A.n) break;
            op = "AlphaABaddBetaThis"; char *hb = tb ? (a.cx ? GLOBAL::C : GLOBAL::T) : GLOBAL::N, *hc = tc ? (a.cx ? GLOBAL::C : GLOBAL::T) : GLOBAL::N;
            a.e.AlphaABaddBetaThis(al, b.e, hb, c.e, hc, be); X = cd(al) * (L * R) + cd(be) * A; tol = 1e-11; if (nrm(X) < 1e-3 * (nrm(L) * nrm(R) + nrm(A))) tol = 1e-8; break; }
        case 8: { op = "writepartial"; int p = r.i(0, (int)a.w.size() - 1); double v = r.n(); a.e.ObtainWritePartialData()[p] = v; X = A; if (a.cx) { if (p % 2) X.a[p / 2].imag(v); else X.a[p / 2].real(v); } else X.a[p] = v; tol = 0; break; }
        case 9: { op = "writeentire"; double *p = a.e.ObtainWriteEntireData(); X = randm(r, A.m, A.n, A.cx); for (size_t q = 0; q < X.a.size(); q++) if (a.cx) { p[2 * q] = X.a[q].real(); p[2 * q + 1] = X.a[q].imag(); } else p[q] = X.a[q].real(); tol = 0; break; }
        case 10: if (a.num != 1) break; op = "Transpose"; a.e.Transpose(); X = H(A); std::swap(a.row, a.col); tol = 0; break;
        case 11: { op = "Reshape"; int L = a.row * a.col * a.num; std::vector<int> d; for (int q = 1; q <= L; q++) if (L % q == 0) d.push_back(q); int nr = r.pick(d), nc = L / nr, nn = 1; if (!fields && r.b(0.3)) { std::vector<int> d2; for (int q = 1; q <= nc; q++) if (nc % q == 0) d2.push_back(q); nn = r.pick(d2); nc /= nn; } a.e.Reshape(nr, nc, nn); X = reshape(A, nr, nc * nn); bool same = nr == a.row && nc == a.col && nn == a.num; a.row = nr; a.col = nc; a.num = nn; tol = 0; if (same && fields) { a.hasatt = a.e.FieldsExist("_user") && a.hasatt; touched = -1; } break; }
        case 12: { if (a.num != 1 || b.num != 1 || a.cx != b.cx || b.row > a.row || b.col > a.col) break; op = "SubmatrixAssignment"; int r0 = r.i(0, a.row - b.row), c0 = r.i(0, a.col - b.col); a.e.SubmatrixAssignment(r0, r0 + b.row - 1, c0, c0 + b.col - 1, b.e); X = A; for (int p = 0; p < b.row; p++) for (int q = 0; q < b.col; q++) X(r0 + p, c0 + q) = B(p, q); tol = 0; break; }
        case 13: if (!a.cx) break; op = "Conj"; a.e.Conj(); X = Cj(A); tol = 0; break;
        case 14: { if (a.num != 1) break; Mat u = randm(r, a.row, 1, a.cx), v = randm(r, a.col, 1, a.cx); Element eu = el(u), ev = el(v); op = "HaddRankone"; if (a.cx) { cd z = rc(r, true); a.e.HaddRankone(zc(z), eu, ev); X = A + z * (u * Tr(v)); } else { a.e.HaddRankone(al, eu, ev); X = A + cd(al) * (u * Tr(v)); } tol = 1e-11; break; }
        case 15: { if (a.num != 1) break; bool left = r.b(); int d = left ? a.row : a.col; Element ed; Mat D; if (b.num == 1 && b.col == 1 && b.row == d && b.cx == a.cx && i != j) { ed = b.e; D = B; } else { D = randm(r, d, 1, a.cx); ed = el(D); } op = "DiagTimesM"; ed.DiagTimesM(a.e, left ? GLOBAL::L : GLOBAL::R); X = A; for (int p = 0; p < a.row; p++) for (int q = 0; q < a.col; q++) X(p, q) *= D.a[left ? p : q]; break; }
        case 16: op = "SetToZeros"; a.e.SetToZeros(); X = Mat(A.m, A.n, A.cx); tol = 0; break;
        case 17: if (a.num != 1) break; op = "SetToIdentity"; a.e.SetToIdentity(); X = Mat(A.m, A.n, A.cx); for (int p = 0; p < std::min(A.m, A.n); p++) X(p, p) = 1; tol = 0; break;
        case 18: op = "RandGaussian"; a.e.RandGaussian(); X = of(a.e); break;
        case 19: { op = "RandUnform"; a.e.RandUnform(-1, 2); X = of(a.e); for (double v : raw(a.e)) if (!(v >= -1 && v <= 2)) { config("hist/RandUnform"); fail("range", "draw %g outside [-1,2]", v); } break; }
        case 20: if (a.cx || a.num != 1 || a.row != a.col) break; op = "ScaledIdOPE"; a.e.ScaledIdOPE(al); X = cd(al) * Mat::eye(a.row); tol = 0; break;
        case 21: if (b.w.size() != a.w.size() || a.cx != b.cx || a.row != b.row || a.num != b.num) break; op = "plus-assign"; a.e += b.e; X = A + B; break;
        case 22: if (b.w.size() != a.w.size() || a.cx != b.cx || a.row != b.row || a.num != b.num) break; op = "minus-assign"; a.e -= b.e; X = A - B; break;
        case 23: if (i == j) break; op = "delete-assign"; a.e.Delete(); a.e = b.e; X = B; shp(a, b); tol = 0; a.hasatt = false; if (fields) { a.hasatt = b.hasatt; a.att = b.att; a.w = b.w; P.verify(-1, nullptr, "delete-assign"); op = nullptr; } break;
        case 24: op = "CopyOnWrite"; a.e.CopyOnWrite(); X = A; tol = 0; if (fields) { a.hasatt = a.e.FieldsExist("_user") && a.hasatt; touched = -1; } break;
        case 25: { op = "NewMemoryOnWrite"; a.e.NewMemoryOnWrite(); double *p = a.e.ObtainWriteEntireData(); X = randm(r, A.m, A.n, A.cx); for (size_t q = 0; q < X.a.size(); q++) if (a.cx) { p[2 * q] = X.a[q].real(); p[2 * q + 1] = X.a[q].imag(); } else p[q] = X.a[q].real(); tol = 0; break; }
        case 26: if (b.w.size() != c.w.size() || b.cx != c.cx || b.row != c.row || b.num != c.num) break; op = "op-add"; a.e = b.e + c.e; X = B + C; shp(a, b); break;
        case 27: if (b.w.size() != c.w.size() || b.cx != c.cx || b.row != c.row || b.num != c.num) break; op = "op-sub"; a.e = b.e - c.e; X = B - C; shp(a, b); break;
        case 28: if (!flat || b.cx != c.cx || B.n != C.m) break; op = "op-mul"; a.e = b.e * c.e; X = B * C; a.row = X.m; a.col = X.n; a.num = 1; a.cx = b.cx; tol = 1e-11; if (nrm(X) < 1e-3 * nrm(B) * nrm(C)) tol = 1e-8; break;
        case 29: if (!flat) break; op = "GetTranspose"; a.e = b.e.GetTranspose(); X = H(B); a.row = X.m; a.col = X.n; a.num = 1; a.cx = b.cx; tol = 0; break;
        case 30: P.sharers.emplace_back(a.e, raw(a.e)); if (P.sharers.size() > 6) P.sharers.erase(P.sharers.begin() + r.i(0, 5)); op = "hold-copy"; touched = -1; break;
        case 31: op = "op-scalar"; a.e = al * b.e; X = cd(al) * B; shp(a, b); break;
        case 32: { op = "swap"; if (i == j) { op = nullptr; break; } Element tmp = a.e; a.e = b.e; b.e = tmp; shp(a, b); Slot sv; b.row = A.m; b.num = 1; if (true) { // model swap
                std::vector<double> wa = a.w, wb = b.w; int an = (int)(A.a.size() / std::max(1, A.m)); (void)an; a.w = wb; b.w = wa; }
                // shapes of the former a are taken from the temporary
                b.row = tmp.Getrow(); b.col = tmp.Getcol(); b.num = tmp.Getnum(); b.cx = tmp.Getiscomplex(); bool ha = a.hasatt; auto aa = a.att; a.hasatt = b.hasatt; a.att = b.att; b.hasatt = ha; b.att = aa; touched = -1; break; }
        case 33: { if (a.num != 1) break; int r0 = r.i(0, a.row - 1), r1 = r.i(r0, a.row - 1), c0 = r.i(0, a.col - 1), c1 = r.i(c0, a.col - 1); op = "GetSubmatrix"; Element g = a.e.GetSubmatrix(r0, r1, c0, c1); Mat G = of(g); Mat E = blk(A, r0, r1, c0, c1); if (!(rel(G, E, 1e-300) == 0)) { config("hist/GetSubmatrix"); fail("value", "block differs"); } g.ScalarTimesThis(2.0); touched = -1; break; }
        case 34: { op = "temporaries"; touched = -1; std::vector<Element> v(3, a.e); v[1].ScalarTimesThis(2.0); v[2] = v[1]; v[2].ObtainWritePartialData()[0] = 5; v.erase(v.begin()); v.push_back(b.e); v[0] = v[2]; v[2].ScalarTimesThis(0.0); break; }
        case 35: { op = "fresh-assign"; Element f; f = b.e; f.ScalarTimesThis(2.0); Element g(2, 3); g = f; g.ScalarTimesThis(2.0); touched = -1; break; }
        case 36: if (b.cx && b.num == 1) { op = "FFT2D-into"; if (i == j) { op = nullptr; break; } if (a.row != b.row || a.col != b.col || !a.cx || a.num != 1) { op = nullptr; break; } Element rr = b.e.FFT2D(FFTW_FORWARD, &a.e); X = of(b.e.GetFFT2D(FFTW_FORWARD)); } break;
        // ---- factorizations and attachments (E02)
        case 37: a.e.QRDecom(); op = "QRDecom"; touched = -1; break;
        case 38: a.e.SVDDecom(); op = "SVDDecom"; touched = -1; break;
        case 39: if (A.m != A.n || a.num != 1) break; if (nrm(A) == 0) break; a.e.LUdecom(); op = "LUdecom"; touched = -1; break;
        case 40: if (A.m != A.n || a.num != 1) break; { std::vector<double> w; Mat V; symeig(sym(A), w, V); if (w[0] <= 1e-8 * std::fabs(w.back()) || nrm(skew(A)) > 1e-12 * nrm(A)) break; } a.e.CholDecom(); op = "CholDecom"; touched = -1; break;
        case 41: if (A.m != A.n || a.num != 1) break; if (r.b(0.3)) a.e.EigenDecomSym(GLOBAL::N); a.e.EigenDecomSym(); op = "EigenDecomSym"; touched = -1; break;
        case 42: if (A.m != A.n || a.num != 1) break; a.e.SchurForm(); op = "SchurForm"; touched = -1; break;
        case 43: a.e.HHRDecom(); op = "HHRDecom"; touched = -1; break;
        case 44: { Mat U = randm(r, r.i(1, 3), r.i(1, 3)); Element eu = el(U); a.e.AddToFields("_user", eu); a.att["_user"] = U; a.hasatt = true; if (r.b()) eu.ScalarTimesThis(2.0); op = "attach"; touched = -1; break; }
        case 45: { // solves use cached factors
            if (!flat || A.m != A.n || a.cx != b.cx || B.m != A.n) break; std::vector<double> sv = singvals(A); if (!(sv.back() > 1e-5 * sv[0])) break;
            op = "solve"; touched = -1; Mat Z = of(a.e % b.e); config("fields/solve"); small("solve-current-value", nrm(A * Z - B) / (nrm(A) * nrm(Z) + 1e-300), 1e-11, "residual of left solve"); break; }
        case 46: { if (A.m != A.n || a.num != 1 || nrm(A) > 20 || nrm(skew(A)) > 1e-12 * nrm(A)) break; op = "ExpSym"; touched = -1; Mat Z = of(a.e.ExpSym()); Mat S = sym(A); config("fields/ExpSym"); small("exp-current-value", rel(Z, funsym(S, [](double x) { return std::exp(x); }), 1e-300), 1e-9, "matrix exponential"); break; }
        }
        if (!op) continue;
        (void)have;
        obs("operation");
        hist += std::to_string(o) + ",";
        if (t % 10 == 0) sig(std::string(fields ? "F" : "V") + std::to_string(o) + ":" + shape(A) + ":" + std::to_string((P.s[i]->e.GetSharedTimes() ? *P.s[i]->e.GetSharedTimes() : 0)));
        P.verify(touched, touched >= 0 && X.m ? &X : nullptr, op, tol);
        if (vh::tracing()) for (auto q : P.s) vh::trace(op, q->e);
        bool blow = false; for (auto q : P.s) { double m = maxabs(val(*q)); if (!(m < 1e6)) blow = true; }
        if (blow) for (int q = 0; q < K; q++) { Slot &z = *P.s[q]; if (!(maxabs(val(z)) < 1e6)) { z.e.RandGaussian(); z.w = raw(z.e); z.hasatt = false; } }
    }
    config(fields ? "fields" : "hist"); sample("%d objects, operation codes %s", K, hist.substr(0, 160).c_str());
}
VH_SUITE(hist) { history(r, idx, false); }
VH_SUITE(fields) { history(r, idx, true); }

// product elements: storage of the whole and views of the components are the same data
static void prodhistory(vh::Rng &r, bool fields) {
    int n1 = r.i(1, 3), p1 = r.i(1, 3), k1 = r.i(1, 3), n2 = r.i(1, 4), k2 = r.i(0, 2); bool cx2 = r.b();
    struct PS { Element e; std::vector<double> w; };
    auto make = [&](PS &q) {
        Element t1(n1, p1), t2(n2, 1, 1, cx2);
        if (k2) { Element z(2, &t1, (integer)k1, &t2, (integer)k2); q.e = z; } else { Element z(1, &t1, (integer)k1); q.e = z; }
        q.e.RandGaussian(); q.w = raw(q.e);
    };
    int K = 4; std::vector<PS> s(K); for (auto &q : s) make(q);
    int L = (int)s[0].w.size();
    // component i occupies [off[i], off[i]+len[i])
    std::vector<int> off, len; int o = 0; for (int i = 0; i < k1; i++) { off.push_back(o); len.push_back(n1 * p1); o += n1 * p1; } for (int i = 0; i < k2; i++) { off.push_back(o); len.push_back(n2 * (cx2 ? 2 : 1)); o += len.back(); }
    config("prod"); expect(o == L, "prod-length", "components %d whole %d", o, L);
    auto verify = [&](const char *op) {
        config("prod/%s", op);
        for (int i = 0; i < K; i++) {
            obs("object-read-back");
            if (raw(s[i].e) != s[i].w) { fail("prod-value", "object %d differs from the deep-copy model after %s", i, op); s[i].w = raw(s[i].e); }
            if (s[i].e.Getnumofelements() != (integer)off.size()) { fail("prod-shape", "object %d has %d components after %s", i, (int)s[i].e.Getnumofelements(), op); continue; }
            for (size_t c = 0; c < off.size(); c++) {
                const Element &ce = s[i].e.GetElement((integer)c);
                obs("component-read-back");
                if (ce.Getlength() != len[c] || ce.Getiscomplex() != ((int)c >= k1 && cx2) || ce.Getrow() != ((int)c < k1 ? n1 : n2)) { fail("prod-shape", "component %zu of object %d has wrong shape after %s", c, i, op); continue; }
                std::vector<double> cw(s[i].w.begin() + off[c], s[i].w.begin() + off[c] + len[c]);
                if (ce.GetSpace() != s[i].e.GetSpace() + off[c]) fail("prod-view", "component %zu of object %d does not view the object's storage after %s", c, i, op);
                else if (raw(ce) != cw) fail("prod-component", "component %zu of object %d differs after %s", c, i, op);
            }
        }
    };
    verify("construct");
    int steps = thorough() ? 80 : 40;
    for (int t = 0; t < steps; t++) {
        int i = r.i(0, K - 1), j = r.i(0, K - 1), c = r.i(0, (int)off.size() - 1); double al = r.n(); const char *op = nullptr;
        PS &a = s[i], &b = s[j];
        switch (fields && r.b(0.7) ? r.i(13, 15) : r.i(0, 12)) {
        case 0: case 1: op = "assign"; a.e = b.e; a.w = b.w; break;
        case 2: op = "copyto"; b.e.CopyTo(a.e); a.w = b.w; break;
        case 3: op = "ScalarTimesThis"; a.e.ScalarTimesThis(al); for (auto &v : a.w) v *= al; break;
        case 4: { op = "AlphaXaddThis"; std::vector<double> x = b.w; a.e.AlphaXaddThis(al, b.e); std::vector<double> e = a.w; for (int q = 0; q < L; q++) e[q] += al * x[q]; auto g = raw(a.e); double d = 0; for (int q = 0; q < L; q++) d = std::max(d, std::fabs(g[q] - e[q])); config("prod/AlphaXaddThis"); small("prod-axpy", d, 1e-10 * (1 + std::fabs(al)) * 100); a.w = g; break; }
        case 5: { op = "component-write"; a.e.CopyOnWrite(); double v = r.n(); int q = r.i(0, len[c] - 1); a.e.GetElement(c).ObtainWritePartialData()[q] = v; a.w[off[c] + q] = v; break; }
        case 6: { op = "component-assign"; a.e.CopyOnWrite(); if (len[c] != len[c % (int)off.size()]) break; Mat M = randm(r, (int)a.e.GetElement(c).Getrow(), (int)a.e.GetElement(c).Getcol(), a.e.GetElement(c).Getiscomplex()); Element em = el(M); em.CopyTo(a.e.GetElement(c)); auto rr = raw(em); std::copy(rr.begin(), rr.end(), a.w.begin() + off[c]); break; }
        case 7: { op = "component-scale"; a.e.CopyOnWrite(); a.e.GetElement(c).ScalarTimesThis(al); for (int q = 0; q < len[c]; q++) a.w[off[c] + q] *= al; break; }
        case 8: { op = "writepartial"; int q = r.i(0, L - 1); double v = r.n(); a.e.ObtainWritePartialData()[q] = v; a.w[q] = v; break; }
        case 9: { op = "passbyvalue"; byvalue(a.e); break; }
        case 10: { op = "op-add"; std::vector<double> x = a.w, y = b.w; int k = r.i(0, K - 1); s[k].e = a.e + b.e; for (int q = 0; q < L; q++) x[q] += y[q]; auto g = raw(s[k].e); double d = 0; for (int q = 0; q < L; q++) d = std::max(d, std::fabs(g[q] - x[q])); config("prod/op-add"); small("prod-add", d, 1e-8); s[k].w = g; break; }
        case 11: { op = "reconstruct"; Element x(b.e); a.e = x; x.ScalarTimesThis(2.0); a.w = b.w; break; }
        case 12: { op = "SetToZeros"; a.e.SetToZeros(); for (auto &v : a.w) v = 0; break; }
        case 13: { op = "component-fields"; // attachments of components travel with copies and vanish on a write of the whole
            Mat U = randm(r, 2, 2); Element eu = el(U); a.e.GetElement(c).AddToFields("_user", eu);
            Element y(a.e); config("prod/component-fields");
            expect(y.GetElement(c).FieldsExist("_user") && rel(of(y.GetElement(c).Field("_user")), U, 1e-300) == 0, "component-attachment", "component attachment not carried by a copy");
            y.ScalarTimesThis(2.0); expect(!y.GetElement(c).FieldsExist("_user"), "stale:component-attachment", "component attachment survived a write of the whole object");
            expect(a.e.GetElement(c).FieldsExist("_user"), "component-attachment", "attachment lost by a write to a copy");
            // assigning an object without attachments must not leave the old ones behind
            if (i != j) { Element z(b.e); z.RandGaussian(); Element yy(a.e); yy = z; expect(!yy.GetElement(c).FieldsExist("_user"), "stale:component-attachment-assign", "component attachment survived assignment of another value"); }
            a.e.GetElement(c).RemoveAllFromFields(); break; }
        case 14: { op = "component-factors"; Element &q = a.e.GetElement(c); if (q.Getrow() < 1) break; if (r.b()) q.QRDecom(); else q.SVDDecom(); break; }   // whatever is cached must describe the current value (checked after every operation)
        case 15: { op = "whole-attach"; Element eu = el(randm(r, 2, 1)); a.e.AddToFields("_user", eu); Element y(a.e); y.CopyOnWrite(); config("prod/whole-attach"); expect(!y.FieldsExist("_user"), "stale:attachment", "attachment of a product survived a write"); a.e.GetElement(c).ObtainWritePartialData()[0] += 0; a.e.RemoveAllFromFields(); break; }
        }
        if (fields && op) for (int i = 0; i < K; i++) for (size_t c = 0; c < off.size(); c++) { const Element &ce = s[i].e.GetElement((integer)c); Mat A = of(ce);
            config("prod/component-factors"); if (ce.FieldsExist("_Q") && ce.FieldsExist("_R")) { obs("component factors checked"); small("stale:component-qr", nrm(of(ce.Field("_Q")) * of(ce.Field("_R")) - A) / (nrm(A) + 1e-300), 1e-11, op); }
            if (ce.FieldsExist("_U") && ce.FieldsExist("_S") && ce.FieldsExist("_Vt")) { obs("component factors checked"); Mat S = of(ce.Field("_S")), U = of(ce.Field("_U")); for (int p = 0; p < U.m; p++) for (int q = 0; q < U.n; q++) U(p, q) *= S.a[q]; small("stale:component-svd", nrm(U * of(ce.Field("_Vt")) - A) / (nrm(A) + 1e-300), 1e-11, op); } }
        if (!op) continue;
        obs("operation"); sig(std::string(op) + std::to_string(off.size()) + (cx2 ? "c" : "r")); verify(op);
        if (vh::tracing()) for (auto &q : s) vh::trace(op, q.e);
        for (auto &q : s) { double m = 0; for (double v : q.w) m = std::max(m, std::fabs(v)); if (!(m < 1e6)) { q.e.RandGaussian(); q.w = raw(q.e); } }
    }
    // a copy of a component is an independent value, also when it outlives or coexists with writes to the component
    config("prod/component-copy");
    { Element keep; std::vector<double> w; { PS q; make(q); int c = r.i(0, (int)off.size() - 1); keep = q.e.GetElement(c); w = raw(keep); Element again(q.e.GetElement(c)), third = again; q.e.GetElement(c).ObtainWritePartialData()[0] = 42; expect(raw(q.e)[off[c]] == 42, "component-write-lost", "a write to a component did not reach the product object while a copy of the component exists"); expect(raw(again) == w && raw(third) == w, "component-copy", "a component copy followed a later write"); Element back(q.e); back.CopyOnWrite(); back.GetElement(c) = third; std::vector<double> bw = raw(q.e); std::copy(w.begin(), w.end(), bw.begin() + off[c]); expect(raw(back) == bw, "component-assign", "assigning a component changed something else or nothing"); } expect(raw(keep) == w, "component-copy", "a component copy changed when its product object was destroyed"); keep.ScalarTimesThis(2.0); }
    { // products of products, and assignment between products of different structure
        config("prod/nested"); Element t1(n1, p1), t2(n2, 1, 1, cx2); Element inner(2, &t1, (integer)k1, &t2, (integer)1); integer pows[3] = {0, 2, 2 + r.i(1, 2)}; Element *ty = new Element[2]; ty[0] = inner; ty[1] = t1; Element outer(2, ty, pows); delete[] ty;
        outer.RandGaussian(); std::vector<double> w = raw(outer); int LI = (int)inner.Getlength(); expect((int)w.size() == 2 * LI + (pows[2] - 2) * n1 * p1, "prod-length", "nested length %zu", w.size());
        Element o2 = outer; expect(o2.GetElement(1).GetElement(k1).GetSpace() == o2.GetSpace() + LI + k1 * n1 * p1, "prod-view", "inner component view"); o2.CopyOnWrite(); o2.GetElement(1).GetElement(k1).ObtainWritePartialData()[0] = 9; std::vector<double> w2 = w; w2[LI + k1 * n1 * p1] = 9; expect(raw(o2) == w2 && raw(outer) == w, "prod-component", "write to an inner component"); Element ci = o2.GetElement(1); expect(raw(ci) == std::vector<double>(w2.begin() + LI, w2.begin() + 2 * LI) && ci.Getnumofelements() == (integer)(k1 + 1) && ci.GetElement(k1).GetSpace() == ci.GetSpace() + k1 * n1 * p1, "prod-value", "copy of an inner product"); o2.ScalarTimesThis(2.0); expect(raw(ci) == std::vector<double>(w2.begin() + LI, w2.begin() + 2 * LI), "component-copy", "inner copy followed");
        config("prod/restructure"); Element a1(n1, p1 + 1), b1(p1 + 1, n1), c1(n1 * (p1 + 1), 1); Element A1(1, &a1, (integer)2), B1(1, &b1, (integer)2), C1(1, &a1, (integer)3); A1.RandGaussian(); B1.RandGaussian(); C1.RandGaussian(); std::vector<double> wb = raw(B1), wc = raw(C1); Element X = A1; X = B1; expect(raw(X) == wb && X.GetElement(0).Getrow() == p1 + 1 && X.GetElement(0).Getcol() == n1, "prod-shape", "components keep the old shape after assignment of a product with other shapes"); X = C1; expect(raw(X) == wc && X.Getnumofelements() == 3 && X.GetElement(2).GetSpace() == X.GetSpace() + 2 * n1 * (p1 + 1), "prod-shape", "components after assignment of a longer product"); Element plain = el(randm(r, 2, 2)); X = plain; expect(X.Getnumofelements() == 0 && raw(X) == raw(plain), "prod-shape", "plain value assigned to a product"); X = B1; expect(X.Getnumofelements() == 2 && raw(X) == wb && raw(X.GetElement(1)) == std::vector<double>(wb.begin() + wb.size() / 2, wb.end()), "prod-shape", "product assigned to a plain value"); obs("restructure"); }
    config("prod/component-copy");
    { Element cc = s[0].e.GetElement(0); std::vector<double> w = raw(cc); s[0].e.ScalarTimesThis(2.0); expect(raw(cc) == w, "component-copy", "a copied component changed when the product object was scaled"); w = raw(s[0].e); cc.ScalarTimesThis(3.0); expect(raw(s[0].e) == w, "component-copy", "scaling a copied component changed the product object"); }
    config("prod"); sample("components %d x (%dx%d), %d x (%d %s)", k1, n1, p1, k2, n2, cx2 ? "complex" : "real");
}

VH_SUITE(histprod) { prodhistory(r, false); }
VH_SUITE(fieldsprod) { prodhistory(r, true); }
// ============================================================================ E03: algebra
static void rnddim(Rng &r, int &m, int &n) { int h = r.b(0.02) ? 40 : thorough() ? 9 : 6; m = r.i(1, h); n = r.i(1, h); }
VH_SUITE(algebra) {
    bool cx = idx % 2; int m, n, k; rnddim(r, m, n); k = r.i(1, 6);
    double s1 = scl(r), s2 = r.b(0.8) ? s1 : scl(r);
    Mat A = randm(r, m, n, cx, s1), B = randm(r, m, n, cx, s2), C = randm(r, n, k, cx, s2);
    if (r.b(0.1)) B = A; if (r.b(0.05)) A = Mat(m, n, cx);
    Element a = el(A), b = el(B), c = el(C); if (r.b(0.3)) { Element h = a; a = h; b = b; }
    auto ck = [&](const char *nm, const Element &g, const Mat &E, double mag, double f = 50) {
        config("algebra/%s/%s", nm, cx ? "complex" : "real"); detail("%s %s", shape(A).c_str(), shape(C).c_str());
        Mat G = of(g); if (G.m != E.m || G.n != E.n || G.cx != E.cx) { fail("algebra-shape", "result %s, expected %s", shape(G).c_str(), shape(E).c_str()); return; }
        small("algebra-value", nrm(G - E) / (mag > 0 ? mag : 1), f * EPS, "value");
        vh::trace(nm, g); sig(std::string(nm) + shape(E));
    };
    double na = nrm(A), nb = nrm(B), nc = nrm(C); cd z = rc(r, cx); double t = r.n() * scl(r);
    // operands passed by reference below must come back untouched
    std::vector<double> wa = raw(a), wb = raw(b), wc = raw(c);
    ck("A+B", a + b, A + B, na + nb); ck("A-B", a - b, A - B, na + nb); ck("AC", a * c, A * C, na * nc);
    ck("tA", t * a, cd(t) * A, std::fabs(t) * na); ck("At", a * t, cd(t) * A, std::fabs(t) * na); ck("A/t", a / t, cd(1 / t) * A, na / std::fabs(t));
    Mat one(m, n, cx); for (auto &v : one.a) v = 1;
    if (!cx) {
        ck("A+t", a + t, A + cd(t) * one, na + std::fabs(t) * m * n); ck("t+A", t + a, A + cd(t) * one, na + std::fabs(t) * m * n); ck("A-t", a - t, A - cd(t) * one, na + std::fabs(t) * m * n); ck("t-A", t - a, cd(t) * one - A, na + std::fabs(t) * m * n);
        Mat Z = A; bool nz = true; for (auto &v : Z.a) { if (v == cd(0)) nz = false; v = cd(t) / v; } if (nz) ck("t/A", t / a, Z, nrm(Z));
        // comparisons, with ties
        Mat B2 = B; for (size_t i = 0; i < B2.a.size(); i++) if (r.b(0.3)) B2.a[i] = A.a[i]; Element b2 = el(B2); double th = r.b() ? A.a[0].real() : t;
        auto cmp = [&](const char *nm, const Element &g, std::function<bool(double, double)> f, int mode) { Mat E(m, n); for (size_t i = 0; i < E.a.size(); i++) { double x = A.a[i].real(), y = mode == 0 ? B2.a[i].real() : th; E.a[i] = mode == 2 ? f(y, x) : f(x, y); } ck(nm, g, E, 1, 0); };
        cmp("A==B", a == b2, [](double x, double y) { return x == y; }, 0); cmp("A>B", a > b2, [](double x, double y) { return x > y; }, 0); cmp("A>=B", a >= b2, [](double x, double y) { return x >= y; }, 0); cmp("A<B", a < b2, [](double x, double y) { return x < y; }, 0); cmp("A<=B", a <= b2, [](double x, double y) { return x <= y; }, 0);
        cmp("A==t", a == th, [](double x, double y) { return x == y; }, 1); cmp("A>t", a > th, [](double x, double y) { return x > y; }, 1); cmp("A>=t", a >= th, [](double x, double y) { return x >= y; }, 1); cmp("A<t", a < th, [](double x, double y) { return x < y; }, 1); cmp("A<=t", a <= th, [](double x, double y) { return x <= y; }, 1);
        cmp("t==A", th == a, [](double x, double y) { return x == y; }, 2); cmp("t>A", th > a, [](double x, double y) { return x > y; }, 2); cmp("t>=A", th >= a, [](double x, double y) { return x >= y; }, 2); cmp("t<A", th < a, [](double x, double y) { return x < y; }, 2); cmp("t<=A", th <= a, [](double x, double y) { return x <= y; }, 2);
        auto ew = [&](const char *nm, const Element &g, std::function<double(double, double)> f, bool sc) { Mat E(m, n); for (size_t i = 0; i < E.a.size(); i++) E.a[i] = f(A.a[i].real(), sc ? th : B2.a[i].real()); ck(nm, g, E, nrm(E) + 1e-300); };
        ew("max", a.GetMax(b2), [](double x, double y) { return std::max(x, y); }, false); ew("min", a.GetMin(b2), [](double x, double y) { return std::min(x, y); }, false); ew("maxt", a.GetMax(th), [](double x, double y) { return std::max(x, y); }, true); ew("mint", a.GetMin(th), [](double x, double y) { return std::min(x, y); }, true);
        ew("abs", a.GetAbs(), [](double x, double) { return std::fabs(x); }, false); Element ab = a.GetAbs(); Mat E(m, n); for (size_t i = 0; i < E.a.size(); i++) E.a[i] = std::sqrt(std::fabs(A.a[i].real())); ck("sqrt", ab.GetSqrt(), E, nrm(E) + 1e-300);
        ck("RealToComplex", a.GetRealToComplex(), [&] { Mat q = A; q.cx = true; return q; }(), na, 0);
    } else {
        ck("zA", zc(z) * a, z * A, std::abs(z) * na); ck("Az", a * zc(z), z * A, std::abs(z) * na); ck("A/z", a / zc(z), (cd(1) / z) * A, na / std::abs(z)); ck("A+z", a + zc(z), A + z * one, na + std::abs(z) * m * n); ck("z+A", zc(z) + a, A + z * one, na + std::abs(z) * m * n); ck("A-z", a - zc(z), A - z * one, na + std::abs(z) * m * n); ck("z-A", zc(z) - a, z * one - A, na + std::abs(z) * m * n);
        Mat Z = A; bool nz = true; for (auto &v : Z.a) { if (v == cd(0)) nz = false; v = z / v; } if (nz) ck("z/A", zc(z) / a, Z, nrm(Z));
        ck("GetConj", a.GetConj(), Cj(A), na, 0); { Element q = a; q.Conj(); ck("Conj", q, Cj(A), na, 0); }
        // real and imaginary parts: same length information in either representation offered
        auto part = [&](const char *nm, const Element &g, bool im) {
            config("algebra/%s", nm); Mat G = of(g); Mat E(m, n, G.cx); for (size_t i = 0; i < E.a.size(); i++) E.a[i] = im ? A.a[i].imag() : A.a[i].real();
            if (G.m != m || G.n != n) { fail("algebra-shape", "%s returns %s for %s", nm, shape(G).c_str(), shape(A).c_str()); return; }
            small("algebra-value", nrm(G - E), 0, nm); };
        part("GetRealInComplex", a.GetRealInComplex(), false); part("GetImagInComplex", a.GetImagInComplex(), true);
    }
    // gemm with all flag combinations
    for (int ta = 0; ta < (cx ? 3 : 2); ta++) for (int tb = 0; tb < (cx ? 3 : 2); tb++) {
        int kk = r.i(1, 5); Mat L = ta ? randm(r, kk, m, cx, s1) : randm(r, m, kk, cx, s1), R = tb ? randm(r, n, kk, cx, s2) : randm(r, kk, n, cx, s2);
        auto opm = [](const Mat &X, int t) { return t == 0 ? X : t == 1 ? Tr(X) : H(X); }; char *fl[3] = {GLOBAL::N, GLOBAL::T, GLOBAL::C};
        double al = r.pickd({0, 1, -1, 0.7}), be = r.pickd({0, 1, -1, 0.3}); Element d = a, l = el(L), rr = el(R); if (r.b()) { d = el(A); }
        d.AlphaABaddBetaThis(al, l, fl[ta], rr, fl[tb], be);
        char nm[40]; snprintf(nm, sizeof nm, "gemm%d%d", ta, tb); ck(nm, d, cd(al) * (opm(L, ta) * opm(R, tb)) + cd(be) * A, std::fabs(al) * nrm(L) * nrm(R) + std::fabs(be) * na + 1e-300);
        if (cx) { cd za = rc(r, true), zb = rc(r, true); Element d2 = a; d2.AlphaABaddBetaThis(zc(za), l, fl[ta], rr, fl[tb], zc(zb)); snprintf(nm, sizeof nm, "zgemm%d%d", ta, tb); ck(nm, d2, za * (opm(L, ta) * opm(R, tb)) + zb * A, std::abs(za) * nrm(L) * nrm(R) + std::abs(zb) * na + 1e-300); }
    }
    { Element d = a; d.AlphaXaddThis(t, b); ck("axpy", d, A + cd(t) * B, na + std::fabs(t) * nb); Element d2 = a; d2.AlphaXaddThis(t, d2); ck("axpy-self", d2, cd(1 + t) * A, (1 + std::fabs(t)) * na + 1e-300); Element d3 = a; d3.ScalarTimesThis(t); ck("scal", d3, cd(t) * A, std::fabs(t) * na + 1e-300);
      if (cx) { Element e1 = a; e1.AlphaXaddThis(zc(z), b); ck("zaxpy", e1, A + z * B, na + std::abs(z) * nb); Element e2 = a; e2.ScalarTimesThis(zc(z)); ck("zscal", e2, z * A, std::abs(z) * na + 1e-300); } }
    config("algebra/dot"); small("algebra-value", std::fabs(a.DotProduct(b) - rdot(A, B)) / (na * nb + 1e-300), 50 * EPS, "DotProduct"); small("algebra-value", std::fabs(a.Fnorm() - na) / (na + 1e-300), 50 * EPS, "Fnorm");
    { Mat E(1, n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) E(0, j) += std::norm(A(i, j)); ck("ColNormsSquare", a.GetColNormsSquare(), E, na * na + 1e-300); Mat F(1, n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) F(0, j) += (std::conj(A(i, j)) * B(i, j)).real(); ck("ColDotProducts", a.GetColDotProducts(b), F, na * nb + 1e-300); }
    { // division by matrices
        int q = r.i(1, 5); Mat S = randorth(r, q, q, cx) + cd(0.3) * randm(r, q, q, cx); S = cd(s1) * S; std::vector<double> sv = singvals(S); if (sv.back() > 1e-3 * sv[0]) { Mat R = randm(r, q, r.i(1, 4), cx), L = randm(r, r.i(1, 4), q, cx); Element es = el(S), er = el(R), e_l = el(L); Mat X = of(es % er), Y = of(e_l / es); config("algebra/solve/%s", cx ? "complex" : "real"); small("algebra-solve", nrm(S * X - R) / (nrm(S) * nrm(X)), 200 * EPS, "A % B"); small("algebra-solve", nrm(Y * S - L) / (nrm(S) * nrm(Y)), 200 * EPS, "A / B"); Mat X2 = of(es % er); small("algebra-solve", rel(X, X2, 1e-300), 1e-14, "repeated solve"); config("algebra/inplace"); } }
    ck("Hadamard", a.GetHadamardProduct(b), [&] { Mat q = A; for (size_t i = 0; i < q.a.size(); i++) q.a[i] *= B.a[i]; return q; }(), na * nb + 1e-300);
    { bool nz = true; for (auto &v : B.a) if (v == cd(0)) nz = false; Mat q = A; for (size_t i = 0; i < q.a.size(); i++) q.a[i] /= B.a[i]; if (nz) ck("HadamardDiv", a.GetHadamardDivision(b), q, nrm(q) + 1e-300); }
    // in-place compound operators
    { Element d = a; d += b; ck("A+=B", d, A + B, na + nb); Element d2 = a; d2 -= b; ck("A-=B", d2, A - B, na + nb); }
    ck("Transpose", a.GetTranspose(), H(A), na, 0); { Element d = a; d.Transpose(); ck("Transpose!", d, H(A), na, 0); }
    config("algebra/operands"); expect(raw(a) == wa && raw(b) == wb && raw(c) == wc, "operands-unchanged", "an operand of a non-modifying operation changed");
    config("algebra"); sample("%s + %s * %s, scales %g %g", shape(A).c_str(), shape(A).c_str(), shape(C).c_str(), s1, s2);
}

// ============================================================================ E04: factorizations
VH_SUITE(decomp) {
    bool cx = idx % 2; int m, n; rnddim(r, m, n); double sc = scl(r);
    Mat A = randm(r, m, n, cx, sc); int kind = r.i(0, 3);
    if (kind == 1 && m > 1 && n > 1) { int rk = r.i(0, std::min(m, n) - 1); A = rk == 0 ? Mat(m, n, cx) : cd(sc) * (randm(r, m, rk, cx) * randm(r, rk, n, cx)); }   // rank deficient
    if (kind == 2) for (int j = 0; j < n; j++) { double f = std::pow(10.0, r.i(-6, 6)); for (int i = 0; i < m; i++) A(i, j) *= f; }                                          // graded
    double na = std::max(nrm(A), 1e-300); int mn = std::min(m, n); double tol = 100 * EPS * std::max(m, n);
    const char *ty = cx ? "complex" : "real";
    auto orth = [&](const Mat &Q, const char *nm) { small(nm, nrm(H(Q) * Q - Mat::eye(Q.n, cx)), tol, "columns orthonormal"); };
    auto C = [&](const char *nm) { config("decomp/%s/%s", nm, ty); detail("%s kind %d scale %g", shape(A).c_str(), kind, sc); sig(std::string(nm) + shape(A) + std::to_string(kind)); };
    { C("QR"); Element a = el(A); a.QRDecom(); Mat Q = of(a.Field("_Q")), R = of(a.Field("_R")); small("qr", nrm(Q * R - A) / na, tol, "Q R = A"); orth(Q, "qr-orth"); double lo = 0; for (int j = 0; j < n; j++) for (int i = j + 1; i < mn; i++) lo = std::max(lo, std::abs(R(i, j))); small("qr-tri", lo, 0, "R triangular"); small("qr-input", nrm(of(a) - A), 0, "input unchanged"); vh::trace("Q", a.Field("_Q")); vh::trace("R", a.Field("_R"));
      C("HHR"); Mat X = randm(r, m, r.i(1, 4), cx); Element x = el(X); Element h = a.Field("_HHR"), tau = a.Field("_tau");
      Mat QtX = of(x.HHRMtp(h, tau, cx ? GLOBAL::C : GLOBAL::T, GLOBAL::L)), QX = of(x.HHRMtp(h, tau, GLOBAL::N, GLOBAL::L)), back = of(el(QtX).HHRMtp(h, tau, GLOBAL::N, GLOBAL::L));
      small("hhr-inverse", nrm(back - X) / nrm(X), tol, "Q Q^H x = x"); small("hhr-isometry", std::fabs(nrm(QX) - nrm(X)) / nrm(X), tol, "norm kept"); small("hhr-consistent", nrm(blk(QtX, 0, mn - 1, 0, X.n - 1) - H(Q) * X) / nrm(X), tol, "reflectors agree with Q");
      Mat Y = randm(r, r.i(1, 4), m, cx); Element y = el(Y); Mat YQ = of(y.HHRMtp(h, tau, GLOBAL::N, GLOBAL::R)); small("hhr-consistent", nrm(blk(YQ, 0, Y.m - 1, 0, mn - 1) - Y * Q) / nrm(Y), tol, "right multiplication agrees with Q"); Mat YQt = of(el(YQ).HHRMtp(h, tau, cx ? GLOBAL::C : GLOBAL::T, GLOBAL::R)); small("hhr-inverse", nrm(YQt - Y) / nrm(Y), tol, "y Q Q^H = y"); }
    { C("SVD"); Element a = el(A); a.SVDDecom(); Mat U = of(a.Field("_U")), S = of(a.Field("_S")), V = of(a.Field("_Vt")); Mat D(mn, mn, cx); bool ok = true; for (int i = 0; i < mn; i++) { D(i, i) = S.a[i]; if (S.a[i].imag() != 0 || S.a[i].real() < 0 || (i && S.a[i].real() > S.a[i - 1].real())) ok = false; } expect(ok, "svd-order", "singular values not real, nonnegative, descending"); small("svd", nrm(U * D * V - A) / na, tol, "U S V = A"); orth(U, "svd-orth"); orth(H(V), "svd-orth"); vh::trace("S", a.Field("_S")); }
    if (kind != 1) { C("Orth"); Element a = el(A); if (m >= n) { std::vector<double> sv = singvals(A); if (sv.back() > 1e-3 * sv[0]) { Mat W = of(a.GetOrth()); small("polar-orth", nrm(H(W) * W - Mat::eye(n, cx)), tol, "orthonormal"); Mat P = H(W) * A; small("polar-herm", nrm(skew(P)) / na, tol, "W^H A Hermitian"); std::vector<double> w; Mat VV; symeig(sym(P), w, VV); expect(w[0] >= -tol * na, "polar-psd", "W^H A has eigenvalue %g", w[0]); } } }
    int q = r.i(1, 6); Mat S = sym(randm(r, q, q, cx, sc)); if (r.b(0.3)) { Mat Q = randorth(r, q, q, cx), D(q, q, cx); for (int i = 0; i < q; i++) D(i, i) = sc * r.picki({1, 1, 2, -1}); S = sym(Q * D * H(Q)); } double ns = std::max(nrm(S), 1e-300);
    for (int ul = 0; ul < 2; ul++) { C(ul ? "EigU" : "EigL"); Mat G = S; if (r.b()) for (int j = 0; j < q; j++) for (int i = 0; i < q; i++) if (ul ? i > j : i < j) G(i, j) = rc(r, cx);   // the other triangle must not matter
        Element a = el(G); a.EigenDecomSym(GLOBAL::V, ul ? GLOBAL::U : GLOBAL::L); Mat W = of(a.Field("_EigVal")), V = of(a.Field("_EigVec")); Mat D(q, q, cx); bool asc = true; for (int i = 0; i < q; i++) { D(i, i) = W.a[i]; if (W.a[i].imag() != 0 || (i && W.a[i].real() < W.a[i - 1].real())) asc = false; } expect(asc, "eig-order", "eigenvalues not real ascending"); small("eig", nrm(V * D * H(V) - S) / ns, tol * 4, "V D V^H = A"); small("eig-orth", nrm(H(V) * V - Mat::eye(q, cx)), 100 * EPS * q, "orthonormal"); Element a2 = el(G); a2.EigenDecomSym(GLOBAL::N, ul ? GLOBAL::U : GLOBAL::L); small("eig-values-only", nrm(of(a2.Field("_EigVal")) - W) / ns, tol * 4, "values without vectors"); vh::trace("W", a.Field("_EigVal"));
        Mat T = cd(1 / ns) * S; Element t = el(T); Mat E = of(t.ExpSym(ul ? GLOBAL::U : GLOBAL::L)); small("exp", rel(E, funsym(T, [](double x) { return std::exp(x); }), 1e-300), 1e-12, "matrix exponential"); Element e = el(sym(E)); Mat Lg = of(e.LogSym(ul ? GLOBAL::U : GLOBAL::L)); small("log", nrm(Lg - T), 1e-11, "log(exp(A)) = A"); }
    { C("Chol"); Mat P = cd(sc) * randspd(r, q, cx, std::pow(10.0, r.i(0, 6))); Element a = el(P); a.CholDecom(); Mat L = of(a.Field("_L")); small("chol", nrm(L * H(L) - P) / nrm(P), tol, "L L^H = A"); double up = 0, dg = 0; for (int j = 0; j < q; j++) { for (int i = 0; i < j; i++) up = std::max(up, std::abs(L(i, j))); if (L(j, j).imag() != 0 || !(L(j, j).real() > 0)) dg = 1; } small("chol-tri", up + dg, 0, "lower triangular, positive diagonal");
      Mat B = randm(r, q, r.i(1, 4), cx); Element b = el(B), l = el(L); double nl = nrm(L); const char *f[3] = {"N", "T", "C"}; for (int t = 0; t < 3; t++) { Mat X = of(b.TriangleLinSol(l, t == 0 ? GLOBAL::N : t == 1 ? GLOBAL::T : GLOBAL::C)); Mat LL = t == 0 ? L : t == 1 ? Tr(L) : H(L); C("TriSolve"); small("trisolve", nrm(LL * X - B) / (nl * nrm(X)), tol, f[t]); } vh::trace("L", a.Field("_L")); }
    { C("LU"); Mat P = randm(r, q, q, cx, sc); Element a = el(P); a.LUdecom(); Mat F = of(a.Field("_LU")); Mat L = Mat::eye(q, cx), U(q, q, cx); for (int j = 0; j < q; j++) for (int t = 0; t < q; t++) if (t > j) L(t, j) = F(t, j); else U(t, j) = F(t, j); Mat B = L * U; const integer *p = (const integer *)a.Field("_P").ObtainReadData(); for (int j = q - 1; j >= 0; j--) { int t = (int)p[j] - 1; if (t >= 0 && t < q && t != j) for (int c = 0; c < q; c++) std::swap(B(t, c), B(j, c)); } small("lu", nrm(B - P) / nrm(P), tol * 10, "P L U = A"); vh::trace("LU", a.Field("_LU")); }
    { C("Schur"); Mat P = randm(r, q, q, cx, sc); Element a = el(P); a.SchurForm(); Mat T = of(a.Field("_SchurForm")), V = of(a.Field("_SchurVec")); small("schur", nrm(V * T * H(V) - P) / nrm(P), tol * 20, "V T V^H = A"); small("schur-orth", nrm(H(V) * V - Mat::eye(q, cx)), 100 * EPS * q, "orthonormal"); double lo = 0; for (int j = 0; j < q; j++) for (int i = j + (cx ? 1 : 2); i < q; i++) lo = std::max(lo, std::abs(T(i, j))); small("schur-tri", lo, 0, "quasi triangular"); Element a2 = el(P); a2.SchurForm(GLOBAL::N); small("schur-novec", rel(of(a2.Field("_SchurForm")), T, 1e-300), 1e-10, "form without vectors"); }
    { C("Sylvester"); int p = r.i(1, 5); Mat P = randm(r, q, q, cx), Q = randm(r, p, p, cx); P = P + cd(6) * Mat::eye(q, cx); Q = Q + cd(6) * Mat::eye(p, cx); bool same = r.b(0.3) && p == q; if (same) Q = P; Mat X = randm(r, q, p, cx); Mat R = P * X + X * Q; Element ep = el(P), eq = el(Q), er = el(R); Mat Y = same ? of(er.SYL(ep, ep)) : of(er.SYL(ep, eq)); small("sylvester", nrm(P * Y + Y * Q - R) / (nrm(P) * nrm(X) + nrm(Q) * nrm(X)), 1e-12, "A X + X B = C"); small("sylvester-input", nrm(of(er) - R), 0, "rhs unchanged"); }
    config("decomp"); sample("%s %s kind %d scale %g, square %d", ty, shape(A).c_str(), kind, sc, q);
}

// ============================================================================ E05: transforms, blocks, sparse
VH_SUITE(transf) {
    int m, n; rnddim(r, m, n); if (r.b(0.3)) { m = 1 << r.i(0, 3); n = 1 << r.i(0, 3); } else if (r.b(0.02)) { m = r.b() ? 1 << r.i(0, 6) : r.i(1, 40); n = 1 << r.i(0, m > 16 ? 2 : 6); if (r.b()) std::swap(m, n); }
    { Mat A = randm(r, m, n, true, scl(r)); double na = nrm(A); Element a = el(A); config("fft"); detail("%s", shape(A).c_str());
      for (int d = 0; d < 2; d++) { Mat F(m, n, true); for (int p = 0; p < m; p++) for (int q = 0; q < n; q++) { cd s = 0; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) s += A(i, j) * std::polar(1.0, (d ? 1 : -1) * 2 * 3.14159265358979323846 * ((double)((long)p * i % m) / m + (double)((long)q * j % n) / n)); F(p, q) = s; }
        Mat G = of(a.GetFFT2D(d ? FFTW_BACKWARD : FFTW_FORWARD)); small("fft", nrm(G - F) / (na * m * n), 1e-14, d ? "backward" : "forward"); Element t(m, n, "complex"); t.RandGaussian(); Element keep = t; a.FFT2D(d ? FFTW_BACKWARD : FFTW_FORWARD, &t); small("fft", nrm(of(t) - F) / (na * m * n), 1e-14, "into"); Mat Bk = of(t.GetFFT2D(d ? FFTW_FORWARD : FFTW_BACKWARD)); small("fft-inverse", nrm(cd(1.0 / (m * n)) * Bk - A) / na, 1e-14, "inverse"); vh::trace("fft", t); }
      small("fft-input", nrm(of(a) - A), 0, "input unchanged"); sig("fft" + shape(A));
      config("haar"); Element h = a.GetHaarFWT();
      { Mat W = A; auto pass = [&](int len, int cnt, auto at) { std::vector<cd> t(len); for (int j = 0; j < cnt; j++) { int k = 1; while (2 * k <= len) k *= 2; while (k > 1) { k /= 2; for (int i = 0; i < k; i++) { cd p = at(2 * i, j), q = at(2 * i + 1, j); t[i] = (p + q) / std::sqrt(2.0); t[k + i] = (p - q) / std::sqrt(2.0); } for (int i = 0; i < 2 * k; i++) at(i, j) = t[i]; } } };
        pass(m, n, [&](int i, int j) -> cd & { return W(i, j); }); pass(n, m, [&](int i, int j) -> cd & { return W(j, i); }); small("haar-definition", nrm(of(h) - W) / na, 1e-14, "pyramid of averages and differences"); } small("haar-isometry", std::fabs(nrm(of(h)) - na) / na, 1e-14, "norm kept"); Mat b = of(h.GetInvHaarFWT()); small("haar-inverse", nrm(b - A) / na, 1e-14, "inverse after forward"); Element g = a.GetInvHaarFWT(); small("haar-inverse", nrm(of(g.GetHaarFWT()) - A) / na, 1e-14, "forward after inverse"); Mat K(m, n, true); for (auto &v : K.a) v = 1; Element ek = el(K); if ((m & (m - 1)) == 0 && (n & (n - 1)) == 0) { Mat hk = of(ek.GetHaarFWT()); Mat E(m, n, true); E(0, 0) = std::sqrt((double)m * n); small("haar-constant", nrm(hk - E), 1e-13 * m * n, "constant goes to the first coefficient"); } vh::trace("haar", h); }
    for (int cx = 0; cx < 2; cx++) {   // sparse
        int k = r.i(1, 4), nz = r.i(0, m * n); Mat S(m, n, cx); std::vector<integer> ir, jc; std::vector<double> vr; std::set<std::pair<int, int>> used;
        for (int t = 0; t < nz; t++) { int i = r.i(0, m - 1), j = r.i(0, n - 1); if (used.count({i, j})) continue; used.insert({i, j}); cd z = rc(r, cx); ir.push_back(i); jc.push_back(j); vr.push_back(z.real()); if (cx) vr.push_back(z.imag()); S(i, j) += z; }
        if (ir.empty()) { ir.push_back(0); jc.push_back(0); cd z = rc(r, cx); vr.push_back(z.real()); if (cx) vr.push_back(z.imag()); S(0, 0) = z; }
        config("sparse/%s", cx ? "complex" : "real"); detail("%s nnz %zu", shape(S).c_str(), ir.size());
        Mat X = randm(r, n, k, cx), Y = randm(r, k, m, cx); Element x = el(X), y = el(Y);
        SparseMatrix *sp = cx ? new SparseMatrix(m, n, ir.data(), jc.data(), (realdpcomplex *)vr.data(), (integer)ir.size()) : new SparseMatrix(m, n, ir.data(), jc.data(), vr.data(), (integer)ir.size());
        double w = nrm(S) + 1e-300; small("sparse-left", nrm(of((*sp) * x) - S * X) / (w * nrm(X)), 1e-14, "S * X"); small("sparse-right", nrm(of(y * (*sp)) - Y * S) / (w * nrm(Y)), 1e-14, "Y * S"); small("sparse-left", nrm(of((*sp) * x) - S * X) / (w * nrm(X)), 1e-14, "S * X again"); expect(sp->Getrow() == m && sp->Getcol() == n && sp->Getiscomplex() == (bool)cx, "sparse-shape", "shape"); vh::trace("sp", (*sp) * x); delete sp; sig("sparse" + shape(S) + std::to_string(ir.size()));
    }
    for (int cx = 0; cx < 2; cx++) {
        config("blocks/%s", cx ? "complex" : "real"); Mat A = randm(r, m, n, cx); detail("%s", shape(A).c_str()); Element a = el(A); double na = nrm(A);
        int r0 = r.i(0, m - 1), r1 = r.i(r0, m - 1), c0 = r.i(0, n - 1), c1 = r.i(c0, n - 1); small("block-get", nrm(of(a.GetSubmatrix(r0, r1, c0, c1)) - blk(A, r0, r1, c0, c1)), 0, "GetSubmatrix");
        Mat B = randm(r, r1 - r0 + 1, c1 - c0 + 1, cx); Mat X = A; for (int i = r0; i <= r1; i++) for (int j = c0; j <= c1; j++) X(i, j) = B(i - r0, j - c0); for (int sh = 0; sh < 2; sh++) { Element d = el(A); Element hold; if (sh) hold = d; d.SubmatrixAssignment(r0, r1, c0, c1, el(B)); config("blocks/assign/%s", sh ? "shared" : "sole"); small("block-set", nrm(of(d) - X), 0, "SubmatrixAssignment"); if (sh) small("block-set", nrm(of(hold) - A), 0, "sharer"); }
        config("blocks/%s", cx ? "complex" : "real"); small("reshape", nrm(of(a.GetReshape(m * n, 1)) - vec(A)), 0, "GetReshape"); expect(a.Getrow() == m && a.Getcol() == n, "reshape-const", "GetReshape changed its object");
        Mat dl = randm(r, m, 1, cx), dr = randm(r, n, 1, cx); Mat L = A, R = A; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) { L(i, j) *= dl.a[i]; R(i, j) *= dr.a[j]; } Element el_ = el(dl), er = el(dr); small("diag", rel(of(el_.GetDiagTimesM(a, GLOBAL::L)), L, 1e-300), 1e-14, "left"); small("diag", rel(of(er.GetDiagTimesM(a, GLOBAL::R)), R, 1e-300), 1e-14, "right"); { Element d = a; el_.DiagTimesM(d, GLOBAL::L); small("diag", rel(of(d), L, 1e-300), 1e-14, "left in place"); Element d2 = a; er.DiagTimesM(d2, GLOBAL::R); small("diag", rel(of(d2), R, 1e-300), 1e-14, "right in place"); small("diag-sharer", nrm(of(a) - A), 0, "shared operand"); }
        Mat u = randm(r, m, 1, cx), v = randm(r, n, 1, cx); Element eu = el(u), ev = el(v); double al = r.n(); cd z = rc(r, cx);
        // in the complex case both overloads use the plain transpose of v
        Mat E1 = A + (cx ? z : cd(al)) * (u * Tr(v)); Element g1 = cx ? a.GetHaddRankone(zc(z), eu, ev) : a.GetHaddRankone(al, eu, ev); config("rankone/%s", cx ? "complex" : "real"); small("rankone", rel(of(g1), E1, 1e-300), 1e-13, "A + s u v'"); Element g2 = a; if (cx) g2.HaddRankone(zc(z), eu, ev); else g2.HaddRankone(al, eu, ev); small("rankone", rel(of(g2), E1, 1e-300), 1e-13, "in place"); small("rankone-sharer", nrm(of(a) - A), 0, "sharer of the in-place form");
        config("reflector/%s", cx ? "complex" : "real"); Mat P = Mat::eye(m, cx) - (cx ? z : cd(al)) * (u * H(u)), Q = Mat::eye(n, cx) - (cx ? z : cd(al)) * (v * H(v)); small("reflector", rel(of(cx ? a.GetHtimesRankone(zc(z), eu, GLOBAL::L) : a.GetHtimesRankone(al, eu, GLOBAL::L)), P * A, 1e-300), 1e-12, "left"); small("reflector", rel(of(cx ? a.GetHtimesRankone(zc(z), ev, GLOBAL::R) : a.GetHtimesRankone(al, ev, GLOBAL::R)), A * Q, 1e-300), 1e-12, "right");
        (void)na; vh::trace("rank1", g1); sig("blk" + shape(A));
    }
    config("transf"); sample("%dx%d", m, n);
}
