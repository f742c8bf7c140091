// C07: block-sparse matrix operations equal the dense algebra they stand for.
#include "kk.hpp"
#include "PlatoMathHelpers.hpp"
using namespace vh; using namespace kk;
#include "Plato_Solve.hpp"
namespace { Pattern pat(Rng& g, int a, int b, double f, bool x, bool y) { auto p = kk::pattern(g, a, b, f, x, y); if (g.coin(0.3)) p = shuffled(g, p); return p; }
int BS[] = {1, 2, 3, 4};
std::string ds(const Pattern& p, int br, int bc) { return str(p.nr, "x", p.nc, " blocks ", br, "x", bc, " nnz ", p.col.size(), " pat ", hstr(std::string((const char*)p.col.data(), p.col.size() * 4))); }
bool ntv(const Pattern& p) { return p.nr > 1 && p.col.size() > 1; } }

VH_GROUP(matvec) { auto& g = c.rng;
  for (int k = 0; k < c.n(600, 12000); ++k) { int br = BS[g.in(0, 3)], bc = BS[g.in(0, 3)]; auto p = pat(g, g.num(9, 60), g.num(9, 60), g.uni(0.05, 0.9), false, false); auto A = randmat(g, p, br, bc); c.begin("mv " + ds(p, br, bc), ntv(p));
    D x = rnd(g, A->numCols()), y = rnd(g, A->numRows()), e0 = get(A->entries()); auto X = mk1(x), Y = mk1(y); Plato::MatrixTimesVectorPlusVector(A, X, Y); M d = dense(c, A, "mv"); D w = mulv(d, x); for (size_t i = 0; i < w.size(); ++i) w[i] += y[i];
    cmp(c, get(Y), w, "matvec-value", amax(x) * amax(e0) * 8 + amax(y), 1e-12); same(c, get(X), x, "matvec-input"); same(c, get(A->entries()), e0, "matvec-input");
    Plato::MatrixTimesVectorPlusVector(A, X, Y); D w2 = mulv(d, x); for (size_t i = 0; i < w.size(); ++i) w[i] += w2[i]; cmp(c, get(Y), w, "matvec-accumulates", 2 * amax(x) * amax(e0) * 8 + amax(y), 1e-12);
    // rejected shapes
    int dx = g.coin() ? 1 : -1; if ((int)x.size() + dx > 0) { V1 bad("bad", x.size() + dx); V1 out("out", y.size()); c.rejects([&] { Plato::MatrixTimesVectorPlusVector(A, bad, out); }, "matvec-shape-rejected"); }
    if ((int)y.size() + dx > 0) { V1 in("in", x.size()); V1 out("out", y.size() + dx); c.rejects([&] { Plato::MatrixTimesVectorPlusVector(A, in, out); }, "matvec-shape-rejected"); } } }
VH_GROUP(nonblock_roundtrip) { auto& g = c.rng; using VO = Plato::ScalarVectorT<int>;
  for (int k = 0; k < c.n(500, 10000); ++k) { int br = BS[g.in(0, 3)], bc = BS[g.in(0, 3)]; auto p = pat(g, g.num(9, 60), g.num(9, 60), g.uni(0.1, 0.9), false, false); auto A = randmat(g, p, br, bc); c.begin("nb " + ds(p, br, bc), ntv(p)); M d = dense(c, A, "nb");
    VO rm, cm; V1 va; Plato::getDataAsNonBlock(A, rm, cm, va);
    if (!c.check((int)rm.size() == p.nr * br + 1 && rm(0) == 0 && (size_t)rm(rm.size() - 1) == cm.size() && cm.size() == va.size() && va.size() == p.col.size() * br * bc, "nonblock-wellformed", str("last ", rm(rm.size() - 1), " n ", cm.size()))) continue;
    M q(p.nr * br, p.nc * bc); bool ok = true; for (int i = 0; i < q.r; ++i) for (int j = rm(i); j < rm(i + 1); ++j) { if (cm(j) < 0 || cm(j) >= q.c) { ok = false; continue; } q(i, cm(j)) += va(j); } c.check(ok, "nonblock-column-range"); cmp(c, q.a, d.a, "nonblock-value", 0, 1e-15);
    // shuffle each row's (column,value) pairs, rebuild
    for (int i = 0; i < q.r; ++i) for (int j = rm(i + 1) - 1; j > rm(i); --j) { int t = g.in(rm(i), j); std::swap(cm(j), cm(t)); std::swap(va(j), va(t)); }
    auto B = Teuchos::rcp(new Plato::CrsMatrixType(p.nr * br, p.nc * bc, br, bc)); Plato::setDataFromNonBlock(B, rm, cm, va); M e = dense(c, B, "roundtrip"); cmp(c, e.a, d.a, "roundtrip-value", 0, 1e-15);
    bool srt = true; for (int i = 0; i < q.r; ++i) for (int j = rm(i); j + 1 < rm(i + 1); ++j) srt = srt && cm(j) < cm(j + 1); c.check(srt, "columns-sorted");
    // strided expansion: a 1 x bc block matrix placed at row aRowOffset of every stride
    auto A1 = randmat(g, p, 1, bc); M d1 = dense(c, A1, "nb"); int st = g.in(2, 9), off = g.in(0, st - 1); VO r2, c2; V1 v2; Plato::getDataAsNonBlock(A1, r2, c2, v2, st, off);
    M s(p.nr * st, p.nc * bc), w(p.nr * st, p.nc * bc); if (!c.check((int)r2.size() == s.r + 1 && (size_t)r2(s.r) == c2.size() && r2(0) == 0, "strided-wellformed", str(r2(r2.size() - 1), " ", c2.size()))) continue;
    for (int i = 0; i < s.r; ++i) for (int j = r2(i); j < r2(i + 1); ++j) s(i, c2(j)) += v2(j); for (int i = 0; i < p.nr; ++i) for (int j = 0; j < s.c; ++j) w(i * st + off, j) = d1(i, j); cmp(c, s.a, w.a, "strided-value", 0, 1e-15); } }
VH_GROUP(sort_columns) { auto& g = c.rng; using VO = Plato::ScalarVectorT<int>;
  for (int k = 0; k < c.n(400, 8000); ++k) { int nr = g.in(1, 8); std::vector<int> rm = {0}; std::vector<int> cm; for (int i = 0; i < nr; ++i) { int n = g.coin(0.1) ? g.in(10, 90) : g.in(0, 9), wd = n < 10 ? 20 : g.in(n, 1000); std::vector<int> u; for (int j = 0; j < wd; ++j) u.push_back(j); for (int j = 0; j < n; ++j) std::swap(u[j], u[g.in(j, wd - 1)]); for (int j = 0; j < n; ++j) cm.push_back(u[j]); rm.push_back(cm.size()); }
    VO R("r", rm.size()), C("c", cm.size()); V1 W("w", cm.size()); for (size_t i = 0; i < rm.size(); ++i) R(i) = rm[i]; for (size_t i = 0; i < cm.size(); ++i) { C(i) = cm[i]; W(i) = 100.0 * i + cm[i] * 1e-3; } c.begin(str("sort ", nr, " ", cm.size(), " ", hstr(std::string((char*)cm.data(), 4 * cm.size()))), cm.size() > 2); Plato::sortColumnEntries(R, C, W);
    for (int i = 0; i < nr; ++i) { std::map<int, double> m; for (int j = rm[i]; j < rm[i + 1]; ++j) m[cm[j]] = 100.0 * j + cm[j] * 1e-3; int j = rm[i]; bool ok = true; for (auto& q : m) { ok = ok && C(j) == q.first && W(j) == q.second; ++j; } c.check(ok, "sorted-row-permutation", str("row ", i)); } } }
VH_GROUP(matmat) { auto& g = c.rng;
  for (int k = 0; k < c.n(400, 6000); ++k) { int a = BS[g.in(0, 3)], b = BS[g.in(0, 3)], d = BS[g.in(0, 3)]; int n = g.num(7, 40), m = g.num(7, 40), q = g.num(7, 40); double den = g.uni(0.1, 0.9);
    auto p1 = pat(g, n, m, den, true, false), p2 = pat(g, m, q, den, true, false); auto A = randmat(g, p1, a, b), B = randmat(g, p2, b, d); c.begin("mm " + ds(p1, a, b) + " * " + ds(p2, b, d), ntv(p1) && ntv(p2));
    M dA = dense(c, A, "mm"), dB = dense(c, B, "mm"); D ea = get(A->entries()), eb = get(B->entries()); auto C = Teuchos::rcp(new Plato::CrsMatrixType(n * a, q * d, a, d)); Plato::MatrixMatrixMultiply(A, B, C); M w = mul(dA, dB); M o = dense(c, C, "mm-out"); cmp(c, o.a, w.a, "matmat-value", amax(ea) * amax(eb) * 16, 1e-12);
    same(c, get(A->entries()), ea, "matmat-input"); same(c, get(B->entries()), eb, "matmat-input");
    auto Cb = Teuchos::rcp(new Plato::CrsMatrixType(n * a + a, q * d, a, d)); c.rejects([&] { Plato::MatrixMatrixMultiply(A, B, Cb); }, "matmat-shape-rejected"); auto Cc = Teuchos::rcp(new Plato::CrsMatrixType(n * a, q * d + d, a, d)); c.rejects([&] { Plato::MatrixMatrixMultiply(A, B, Cc); }, "matmat-shape-rejected");
    auto p3 = pat(g, m + 1, q, den, true, false); auto B3 = randmat(g, p3, b, d); c.rejects([&] { Plato::MatrixMatrixMultiply(A, B3, C); }, "matmat-shape-rejected"); } }
VH_GROUP(minus_and_condense) { auto& g = c.rng;
  for (int k = 0; k < c.n(400, 6000); ++k) { int N = g.in(1, 4); int dim = g.in(1, 3); int n = g.num(7, 40); double den = g.uni(0.1, 0.9); int off = g.in(0, N - 1); bool sym = g.coin();
    auto pa = pat(g, n, n, den, true, sym), pb = pat(g, n, n, den, true, sym); 
    { if (N > 1) { auto A = randmat(g, pa, N, N), B = randmat(g, pb, 1, N); c.begin("minus " + ds(pa, N, N) + " - " + ds(pb, 1, N) + str(" off ", off), ntv(pa)); M dA = dense(c, A, "minus"), dB = dense(c, B, "minus"); D eb = get(B->entries()); double sc = amax(dA.a) + amax(dB.a);
      Plato::MatrixMinusMatrix(A, B, off); M o = dense(c, A, "minus-out"); for (int i = 0; i < n; ++i) for (int j = 0; j < n * N; ++j) dA(i * N + off, j) -= dB(i, j); cmp(c, o.a, dA.a, "minus-value", sc, 1e-14); same(c, get(B->entries()), eb, "minus-input");
      auto pbad = pat(g, n, n + 1, den, true, false); auto Bb = randmat(g, pbad, 1, N); c.rejects([&] { Plato::MatrixMinusMatrix(A, Bb, off); }, "minus-shape-rejected"); } }
    { if (N > 1) { auto A = randmat(g, pa, N, N), B = randmat(g, pb, 1, dim); auto pc = pat(g, n, n, den, true, false), pd = pat(g, n, n, den, true, false); auto C = build(pc, uni(g, pc.col.size() * dim * dim, 0.2, 2.0), dim, dim), Dm = randmat(g, pd, dim, N); c.begin("condense " + ds(pa, N, N) + str(" dim ", dim, " off ", off), ntv(pa));
      M dA = dense(c, A, "cond"), dB = dense(c, B, "cond"), dC = dense(c, C, "cond"), dD = dense(c, Dm, "cond"); D ec = get(C->entries()), eb = get(B->entries()); for (int i = 0; i < dC.r; ++i) { double s = 0; for (int j = 0; j < dC.c; ++j) s += dC(i, j); for (int j = 0; j < dD.c; ++j) dD(i, j) /= s; }
      M bd = mul(dB, dD); double sc = amax(dA.a) + amax(dB.a) * amax(dD.a) * 20; for (int i = 0; i < n; ++i) for (int j = 0; j < n * N; ++j) dA(i * N + off, j) -= bd(i, j);
      Plato::Condense(A, B, C, Dm, off); M o = dense(c, A, "condense-out"); cmp(c, o.a, dA.a, "condense-value", sc, 1e-12); M o2 = dense(c, Dm, "condense-D"); cmp(c, o2.a, dD.a, "condense-scaled-D", amax(dD.a), 1e-12); same(c, get(C->entries()), ec, "condense-input"); same(c, get(B->entries()), eb, "condense-input"); } }
    { auto pc = pat(g, n, g.in(1, 7), den, false, false); int br = BS[g.in(0, 3)], bc = BS[g.in(0, 3)]; auto C = build(pc, uni(g, pc.col.size() * br * bc, 0.1, 2), br, bc); c.begin("rowsum " + ds(pc, br, bc), ntv(pc)); M d = dense(c, C, "rs"); V1 rs("rs", n * br); D r0 = uni(g, n * br, 1, 2); for (int i = 0; i < n * br; ++i) rs(i) = r0[i]; Plato::RowSum f(C); for (int i = 0; i < n; ++i) f(i, rs); D w = r0; for (int i = 0; i < d.r; ++i) for (int j = 0; j < d.c; ++j) w[i] += d(i, j); cmp(c, get(rs), w, "rowsum-value", 10, 1e-13);
      auto E = randmat(g, pc, br, bc); M de = dense(c, E, "dim"); Plato::DiagonalInverseMultiply q(E); for (int i = 0; i < n; ++i) q(i, rs); M oe = dense(c, E, "dim"); for (int i = 0; i < de.r; ++i) for (int j = 0; j < de.c; ++j) de(i, j) /= w[i]; cmp(c, oe.a, de.a, "diaginv-value", 0, 1e-12); 
      D rh = rnd(g, n * 3), sm = uni(g, n * 3, 0.5, 3); double s = g.nz(); V1 L("l", n * 3); Kokkos::deep_copy(L, 1e300); auto RH = mk1(rh), SM = mk1(sm); Plato::InverseWeight<3> iw; for (int i = 0; i < n; ++i) iw(i, SM, RH, L, s); for (int i = 0; i < 3 * n; ++i) c.close(L(i), rh[i] / sm[i] * s, "inverse-weight", 0, 1e-13); Plato::InverseWeight<1> iw1; for (int i = 0; i < n; ++i) iw1(i, SM, RH, L); for (int i = 0; i < n; ++i) c.close(L(i), rh[i] / sm[i], "inverse-weight", 0, 1e-13); } } }
template <int N> static void rowSolve(Ctx& c) { auto& g = c.rng; int n = g.num(8, 40); auto p = pat(g, n, n, 0.5, true, false); int bc = g.in(1, 4); auto A = build(p, uni(g, p.col.size() * N * bc, 0.2, 2), N, bc); D b = rnd(g, n * N), e0 = get(A->entries()); c.begin("rowsolve " + ds(p, N, bc), ntv(p)); auto B = mk1(b); V1 X("x", n * N); Kokkos::deep_copy(X, 1e300); M a = dense(c, A, "rowsolve"); Plato::Solve::RowSummed<N>(A, X, B); for (int i = 0; i < n * N; ++i) { double s = 0; for (int j = 0; j < a.c; ++j) s += a(i, j); c.close(X(i), b[i] / s, "rowsum-solve", 0, 1e-12); } same(c, get(B), b, "rowsum-solve-input"); same(c, get(A->entries()), e0, "rowsum-solve-input"); }
VH_GROUP(rowsum_solve) { for (int k = 0; k < c.n(150, 3000); ++k) { rowSolve<1>(c); rowSolve<2>(c); rowSolve<3>(c); } }
VH_GROUP(rowsum_inverse) { auto& g = c.rng;
  for (int k = 0; k < c.n(300, 5000); ++k) { int n = g.num(8, 40), br = g.in(1, 4), b1 = g.in(1, 3), b2 = g.in(1, 4); auto p1 = pat(g, n, n, 0.5, true, false), p2 = pat(g, n, g.in(1, 6), 0.5, false, false); auto A = build(p1, uni(g, p1.col.size() * br * b1, 0.2, 2), br, b1), B = randmat(g, p2, br, b2); c.begin("rsi " + ds(p1, br, b1) + ds(p2, br, b2), ntv(p1));
    M a = dense(c, A, "rsi"), b = dense(c, B, "rsi"); for (int i = 0; i < b.r; ++i) { double s = 0; for (int j = 0; j < a.c; ++j) s += a(i, j); for (int j = 0; j < b.c; ++j) b(i, j) /= s; } Plato::RowSummedInverseMultiply(A, B); M o = dense(c, B, "rsi"); cmp(c, o.a, b.a, "rowsum-inverse-value", 0, 1e-12); } }
VH_GROUP(matrix_object) { auto& g = c.rng; Plato::CrsMatrixType e; c.begin("unset sizes"); c.rejects([&] { (void)e.numRows(); }, "unset-rows-rejected"); c.rejects([&] { (void)e.numCols(); }, "unset-cols-rejected"); c.check(!e.isBlockMatrix() && e.numRowsPerBlock() == 1 && e.numColsPerBlock() == 1, "default-matrix");
  for (int i = 1; i <= 4; ++i) for (int j = 1; j <= 4; ++j) { int n = g.num(5, 40), m = g.num(5, 40); auto p = pat(g, n, m, 0.5, true, false); auto A = randmat(g, p, i, j); c.begin(str("shape ", i, "x", j, " ", n, "x", m)); c.check(A->isBlockMatrix() == (i * j > 1) && A->numRows() == n * i && A->numCols() == m * j && A->numRowsPerBlock() == i && A->numColsPerBlock() == j, "matrix-shape");
    Plato::CrsMatrixType B(A->rowMap(), A->columnIndices(), A->entries(), i, j); c.check(B.isBlockMatrix() == (i * j > 1) && B.numRowsPerBlock() == i && B.numColsPerBlock() == j && B.entries().data() == A->entries().data() && B.rowMap().data() == A->rowMap().data() && B.columnIndices().data() == A->columnIndices().data(), "matrix-views"); c.rejects([&] { (void)B.numRows(); }, "unset-rows-rejected"); } }
VH_GROUP(conditional) { auto& g = c.rng; for (int k = 0; k < c.n(2000, 40000); ++k) { double x = g.real(), y = g.coin(0.3) ? x - 1 + g.uni(-0.5, 0.5) : g.real(), a = g.real(), b = g.real(); if (std::fabs(x - y - 1) < 1e-9) continue; c.begin(str(x, " ", y)); double v = Plato::conditional_expression(x, y, a, b); c.close(v, x - y >= 1 ? b : a, "conditional-value", 0, 1e-14); } }
