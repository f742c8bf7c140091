// C08: dense vector/matrix-workset kernels equal their algebraic definitions on every size, and reject bad shapes.
#include "kk.hpp"
#include "BLAS1.hpp"
#include "BLAS2.hpp"
#include "BLAS3.hpp"
using namespace vh; using namespace kk; namespace b1 = Plato::blas1; namespace b2 = Plato::blas2; namespace b3 = Plato::blas3;
namespace { int sz(Rng& g) { static const std::vector<int> s = {1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 100, 257}; if (g.coin(0.04)) return g.in(258, 5000); return g.pick(s); } const double INF = INFINITY; 
double sabs(const D& a, const D& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += std::fabs(a[i] * b[i]); return s; } }
VH_GROUP(blas1_reductions) { auto& g = c.rng; for (int k = 0; k < c.n(800, 16000); ++k) { int n = sz(g); D x = rnd(g, n), y = rnd(g, n); auto X = mk1(x), Y = mk1(y); c.begin(str("red n=", n, " x0=", x[0]), n > 1);
    double s = 0; for (int i = 0; i < n; ++i) s += x[i] * y[i]; c.close(b1::dot(X, Y), s, "dot", sabs(x, y), 1e-12); c.close(b1::norm(X), std::sqrt(sabs(x, x)), "norm", 0, 1e-12); double q = 7, w = 0, wa = 0; b1::local_sum(X, q); for (double t : x) { w += t; wa += std::fabs(t); } c.close(q, w, "sum", wa, 1e-12);
    if (g.coin()) { double sh = g.sgn() * 50; for (int i = 0; i < n; ++i) X(i) = x[i] = g.uni(-1, 1) + sh; } double mx, mn; b1::max(X, mx); b1::min(X, mn); c.check(mx == *std::max_element(x.begin(), x.end()), "max", vec(x)); c.check(mn == *std::min_element(x.begin(), x.end()), "min", vec(x)); same(c, get(X), x, "reduction-input");
    V1 e; D z = uni(g, n + 1); auto Z = mk1(z); c.rejects([&] { b1::dot(X, Z); }, "dot-mismatch-rejected"); c.rejects([&] { b1::dot(Z, X); }, "dot-mismatch-rejected"); if (k < 20) { double t; c.rejects([&] { b1::norm(e); }, "norm-empty-rejected"); c.rejects([&] { b1::local_sum(e, t); }, "sum-empty-rejected"); c.rejects([&] { b1::max(e, t); }, "max-empty-rejected"); c.rejects([&] { b1::min(e, t); }, "min-empty-rejected"); } } }
VH_GROUP(blas1_updates) { auto& g = c.rng; for (int k = 0; k < c.n(800, 16000); ++k) { int n = sz(g); D x = rnd(g, n), y = rnd(g, n); double a = g.coin(0.1) ? 0 : g.real(), b = g.coin(0.1) ? 0 : g.real(); auto X = mk1(x), Y = mk1(y); c.begin(str("upd n=", n, " a=", a, " b=", b), n > 1);
    b1::axpy(a, X, Y); D w = y; for (int i = 0; i < n; ++i) w[i] += a * x[i]; cmp(c, get(Y), w, "axpy", 0, 1e-12); same(c, get(X), x, "axpy-input"); Y = mk1(y); b1::update(a, X, b, Y); for (int i = 0; i < n; ++i) w[i] = a * x[i] + b * y[i]; double m = std::fabs(a) * amax(x) + std::fabs(b) * amax(y); cmp(c, get(Y), w, "update", m, 1e-13); same(c, get(X), x, "update-input");
    Y = mk1(y); b1::scale(a, Y); for (int i = 0; i < n; ++i) w[i] = a * y[i]; cmp(c, get(Y), w, "scale", 0, 1e-14); b1::copy(X, Y); same(c, get(Y), x, "copy"); V1 F("f", n); Kokkos::deep_copy(F, NAN); b1::fill(b, F); for (int i = 0; i < n; ++i) c.check(F(i) == b, "fill"); 
    { double lo = g.uni(-5, 5), hi = lo + g.uni(0, 5); V1 R("r", n), R2("r", n); b1::random(lo, hi, R); b1::random(lo, hi, R2); bool in = true; for (int i = 0; i < n; ++i) in = in && R(i) >= lo && R(i) <= hi; c.check(in, "random-range"); same(c, get(R), get(R2), "random-repeatable"); }
    D z(n + 1); auto Z = mk1(z); c.rejects([&] { b1::axpy(a, X, Z); }, "axpy-mismatch-rejected"); c.rejects([&] { b1::axpy(a, Z, X); }, "axpy-mismatch-rejected"); c.rejects([&] { b1::update(a, X, b, Z); }, "update-mismatch-rejected"); c.rejects([&] { b1::update(a, Z, b, X); }, "update-mismatch-rejected"); c.rejects([&] { b1::copy(X, Z); }, "copy-mismatch-rejected"); c.rejects([&] { b1::copy(Z, X); }, "copy-mismatch-rejected");
    if (k < 30) for (double bad : {INF, -INF, (double)NAN}) { c.rejects([&] { b1::fill(bad, X); }, "fill-nonfinite-rejected"); c.rejects([&] { b1::scale(bad, X); }, "scale-nonfinite-rejected"); c.rejects([&] { b1::update(bad, X, b, Y); }, "update-nonfinite-rejected"); c.rejects([&] { b1::update(a, X, bad, Y); }, "update-nonfinite-rejected"); V1 e; c.rejects([&] { b1::fill(1.0, e); }, "fill-empty-rejected"); c.rejects([&] { b1::scale(1.0, e); }, "scale-empty-rejected");
      OV o("o", 1); V1 v("v", 1); V1 out("o", 3); c.rejects([&] { b1::fill(bad, o, v, out); }, "fillat-nonfinite-rejected"); c.rejects([&] { b1::fill(1.0, o, v, e); }, "fillat-empty-rejected"); c.rejects([&] { b1::fill(1.0, o, e, out); }, "fillat-empty-rejected"); OV o2("o", 2); c.rejects([&] { b1::fill(1.0, o2, v, out); }, "fillat-mismatch-rejected"); c.rejects([&] { V1 v3("v", 3); b1::fill(1.0, o2, v3, out); }, "fillat-mismatch-rejected"); } } }
VH_GROUP(blas1_scatter) { auto& g = c.rng; for (int k = 0; k < c.n(600, 12000); ++k) { int n = g.num(40, 3000), m = g.in(1, n); std::vector<int> o(n); for (int i = 0; i < n; ++i) o[i] = i; for (int i = 0; i < m; ++i) std::swap(o[i], o[g.in(i, n - 1)]); o.resize(m); D v = rnd(g, m), out = rnd(g, n); double a = g.real(); auto O = mk1(out); c.begin(str("fillat n=", n, " m=", m, " a=", a, " v0=", v[0]), m > 1 && m < n); b1::fill(a, mko(o), mk1(v), O); D w = out; for (int i = 0; i < m; ++i) w[o[i]] = a * v[i]; cmp(c, get(O), w, "fillat-value", 0, 1e-15);
    { D f = rnd(g, 4 * n); auto F = mk1(f); V1 T("t", n); Kokkos::deep_copy(T, NAN); b1::extract<4, 0>(F, T); for (int i = 0; i < n; ++i) c.check(T(i) == f[4 * i], "extract1"); b1::extract<4, 3>(F, T); for (int i = 0; i < n; ++i) c.check(T(i) == f[4 * i + 3], "extract1"); V1 T2("t", 2 * n); b1::extract<2, 1>(F, T2); for (int i = 0; i < 2 * n; ++i) c.check(T2(i) == f[2 * i + 1], "extract1"); b1::extract<1, 0>(F, F); same(c, get(F), f, "extract1"); b1::extract<3, 2>(F, T); for (int i = 0; i < n; ++i) c.check(T(i) == f[3 * i + 2], "extract1"); V1 e; if (k < 20) { c.rejects([&] { b1::extract<2, 1>(e, T); }, "extract-empty-rejected"); c.rejects([&] { b1::extract<2, 1>(F, e); }, "extract-empty-rejected"); } } } }
VH_GROUP(blas2_kernels) { auto& g = c.rng; for (int k = 0; k < c.n(600, 12000); ++k) { int n = g.num(9), m = n < 10 ? g.num(7, 40) : g.in(1, 7); D x = rnd(g, n * m), y = rnd(g, n * m); double a = g.coin(0.1) ? 0 : g.real(), b = g.coin(0.1) ? 0 : g.real(); auto X = mk2(x, n, m), Y = mk2(y, n, m); c.begin(str("b2 ", n, "x", m, " a=", a, " b=", b, " x0=", x[0]), n * m > 1);
    b2::update(a, X, b, Y); D w(n * m); for (int i = 0; i < n * m; ++i) w[i] = a * x[i] + b * y[i]; double mm = std::fabs(a) * amax(x) + std::fabs(b) * amax(y); cmp(c, get(Y), w, "update2", mm, 1e-13); same(c, get(X), x, "update2-input"); Y = mk2(y, n, m); b2::scale(a, Y); for (int i = 0; i < n * m; ++i) w[i] = a * y[i]; cmp(c, get(Y), w, "scale2", 0, 1e-14); V2 F("f", n, m); Kokkos::deep_copy(F, NAN); b2::fill(b, F); for (auto t : get(F)) c.check(t == b, "fill2");
    V2 bad0("b", n + 1, m), bad1("b", n, m + 1); c.rejects([&] { b2::update(a, X, b, bad0); }, "update2-mismatch-rejected"); c.rejects([&] { b2::update(a, X, b, bad1); }, "update2-mismatch-rejected"); c.rejects([&] { b2::update(a, bad0, b, X); }, "update2-mismatch-rejected"); c.rejects([&] { b2::update(a, bad1, b, X); }, "update2-mismatch-rejected");
    { D o = rnd(g, n * m * 3); auto O = mk2(o, n, 3 * m); b2::axpy<3, 1>(a, X, O); D q = o; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) q[i * 3 * m + 3 * j + 1] = a * o[i * 3 * m + 3 * j + 1] + x[i * m + j]; cmp(c, get(O), q, "axpy2", amax(x) + std::fabs(a) * amax(o), 1e-13); same(c, get(X), x, "axpy2-input"); O = mk2(o, n, 3 * m); b2::axpy<3, 2>(a, X, O); q = o; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) q[i * 3 * m + 3 * j + 2] = a * o[i * 3 * m + 3 * j + 2] + x[i * m + j]; cmp(c, get(O), q, "axpy2", amax(x) + std::fabs(a) * amax(o), 1e-13); V2 bo("b", n + 1, 3 * m); c.rejects([&] { b2::axpy<3, 1>(a, X, bo); }, "axpy2-mismatch-rejected");
      V2 e; if (k < 20) { c.rejects([&] { b2::axpy<3, 1>(a, X, e); }, "axpy2-empty-rejected"); c.rejects([&] { b2::axpy<3, 1>(a, e, O); }, "axpy2-empty-rejected"); c.rejects([&] { b2::fill(a, e); }, "fill2-empty-rejected"); c.rejects([&] { b2::scale(a, e); }, "scale2-empty-rejected"); } }
    { D f = rnd(g, n * m * 4); auto F4 = mk2(f, n, 4 * m); V2 T("t", n, m); Kokkos::deep_copy(T, NAN); b2::extract<4, 3>(F4, T); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) c.check(T(i, j) == f[i * 4 * m + 4 * j + 3], "extract2"); b2::extract<4, 0>(F4, T); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) c.check(T(i, j) == f[i * 4 * m + 4 * j], "extract2");
      V2 U("u", n, 3 * m); Kokkos::deep_copy(U, NAN); b2::extract<4, 3>(m, F4, U); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) for (int d = 0; d < 3; ++d) c.check(U(i, 3 * j + d) == f[i * 4 * m + 4 * j + d], "extract2-block"); V2 W("u", n, 2 * m); Kokkos::deep_copy(W, NAN); b2::extract<4, 2, 1>(m, F4, W); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) for (int d = 0; d < 2; ++d) c.check(W(i, 2 * j + d) == f[i * 4 * m + 4 * j + d + 1], "extract2-block"); } } }
VH_GROUP(blas2_matvec) { auto& g = c.rng; for (int k = 0; k < c.n(800, 16000); ++k) { int n = g.num(6), r = n < 7 ? g.num(7, 30) : g.in(1, 7), q = n < 7 ? g.num(7, 30) : g.in(1, 7); D a = rnd(g, n * r * q); double al = g.coin(0.1) ? 0 : g.real(), be = g.coin(0.2) ? 0 : g.real(); auto A = mk3(a, n, r, q); bool t = g.coin(); const char* tr = t ? (g.coin() ? "T" : "t") : (g.coin() ? "N" : "n"); int nx = t ? r : q, ny = t ? q : r; D x = rnd(g, n * nx), y = rnd(g, n * ny); auto X = mk2(x, n, nx), Y = mk2(y, n, ny); c.begin(str("gemv ", tr, " ", n, " ", r, "x", q, " ", al, " ", be), r * q > 1);
    b2::matrix_times_vector(tr, al, A, X, be, Y); double sc = std::fabs(al) * amax(a) * amax(x) * 40 + std::fabs(be) * amax(y); D w(n * ny); for (int i = 0; i < n; ++i) for (int u = 0; u < ny; ++u) { double s = be * y[i * ny + u]; for (int v = 0; v < nx; ++v) s += al * (t ? a[(i * r + v) * q + u] : a[(i * r + u) * q + v]) * x[i * nx + v]; w[i * ny + u] = s; } cmp(c, get(Y), w, "matvec-workset", sc, 1e-12); same(c, get(A), a, "matvec-workset-input"); same(c, get(X), x, "matvec-workset-input");
    V2 bx("b", n + 1, nx), by("b", n + 1, ny), e; V3 e3; c.rejects([&] { b2::matrix_times_vector(tr, al, A, bx, be, Y); }, "matvec-workset-mismatch-rejected"); c.rejects([&] { b2::matrix_times_vector(tr, al, A, X, be, by); }, "matvec-workset-mismatch-rejected"); c.rejects([&] { b2::matrix_times_vector("X", al, A, X, be, Y); }, "matvec-workset-trans-rejected"); c.rejects([&] { b2::matrix_times_vector("", al, A, X, be, Y); }, "matvec-workset-trans-rejected"); if (k < 20) { c.rejects([&] { b2::matrix_times_vector(tr, al, e3, X, be, Y); }, "matvec-workset-empty-rejected"); c.rejects([&] { b2::matrix_times_vector(tr, al, A, e, be, Y); }, "matvec-workset-empty-rejected"); c.rejects([&] { b2::matrix_times_vector(tr, al, A, X, be, e); }, "matvec-workset-empty-rejected"); } } }
namespace { template <int N> void inv(Ctx& c) { auto& g = c.rng; for (int k = 0; k < c.n(200, 4000); ++k) { int n = g.num(6); D a = uni(g, n * N * N); for (int i = 0; i < n; ++i) for (int d = 0; d < N; ++d) { double s = 0.5; for (int j = 0; j < N; ++j) s += std::fabs(a[(i * N + d) * N + j]); a[(i * N + d) * N + d] = g.sgn() * s; } if (g.coin()) for (int i = 0; i < n; ++i) for (int d = N - 1; d > 0; --d) { int q = g.in(0, d); for (int j = 0; j < N; ++j) std::swap(a[(i * N + d) * N + j], a[(i * N + q) * N + j]); } double sc = g.pos(); for (auto& t : a) t *= sc; auto A = mk3(a, n, N, N); V3 I("i", n, N, N); Kokkos::deep_copy(I, NAN); c.begin(str("inv N=", N, " n=", n, " a0=", a[0])); b3::inverse<N, N>(n, A, I);
    for (int q = 0; q < n; ++q) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) { double s = 0, s2 = 0; for (int m = 0; m < N; ++m) { s += a[(q * N + i) * N + m] * I(q, m, j); s2 += I(q, i, m) * a[(q * N + m) * N + j]; } c.close(s, i == j, "inverse-right", 10, 1e-10); c.close(s2, i == j, "inverse-left", 10, 1e-10); }
    V3 Id("i", n, N, N); Kokkos::deep_copy(Id, NAN); b3::identity<N, N>(n, Id); for (int q = 0; q < n; ++q) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) c.check(Id(q, i, j) == (i == j ? 1.0 : 0.0), "identity"); c.rejects([&] { b3::identity<N, N>(n + 1, Id); }, "identity-cells-rejected"); V3 e; c.rejects([&] { b3::identity<N, N>(0, e); }, "identity-empty-rejected"); V3 b("b", n + 1, N, N); c.rejects([&] { b3::inverse<N, N>(n, A, b); }, "inverse-size-rejected"); c.rejects([&] { b3::inverse<N, N>(n, e, I); }, "inverse-empty-rejected"); c.rejects([&] { b3::inverse<N, N>(n, A, e); }, "inverse-empty-rejected");
    double f = g.real(); V3 F("f", n, N, N); Kokkos::deep_copy(F, NAN); b3::fill<N, N>(n, f, F); for (double t : get(F)) c.check(t == f, "fill3"); c.rejects([&] { b3::fill<N, N>(n, f, e); }, "fill3-empty-rejected"); c.rejects([&] { b3::fill<N, N>(0, f, F); }, "fill3-cells-rejected"); c.rejects([&] { b3::fill<N, N>(-1, f, F); }, "fill3-cells-rejected"); } } }
VH_GROUP(blas3_inverse_small) { inv<1>(c); inv<2>(c); inv<3>(c); inv<4>(c); }
VH_GROUP(blas3_inverse_large) { inv<6>(c); inv<8>(c); inv<14>(c); }
VH_GROUP(blas3_multiply) { auto& g = c.rng; for (int k = 0; k < c.n(800, 12000); ++k) { int n = g.in(1, 5), r = g.in(1, 6), m = g.in(1, 6), q = g.in(1, 6); D a = rnd(g, n * r * m), b = rnd(g, n * m * q), o = rnd(g, n * r * q); double al = g.coin(0.1) ? 0 : g.real(), be = g.coin(0.2) ? 0 : g.real(); auto A = mk3(a, n, r, m), B = mk3(b, n, m, q), C = mk3(o, n, r, q); c.begin(str("gemm n=", n, " ", r, "x", m, "x", q, " al=", al, " be=", be), r * m * q > 1); b3::multiply(n, al, A, B, be, C); double sc = std::fabs(al) * amax(a) * amax(b) * 8 + std::fabs(be) * amax(o);
    D w(n * r * q); for (int i = 0; i < n; ++i) for (int u = 0; u < r; ++u) for (int v = 0; v < q; ++v) { double s = be * o[(i * r + u) * q + v]; for (int t = 0; t < m; ++t) s += al * a[(i * r + u) * m + t] * b[(i * m + t) * q + v]; w[(i * r + u) * q + v] = s; } cmp(c, get(C), w, "multiply3", sc, 1e-12); same(c, get(A), a, "multiply3-input"); same(c, get(B), b, "multiply3-input");
    V3 bA("x", n, r, m + 1), bB("x", n, m, q + 1), bC("x", n, r + 1, q), bn("x", n + 1, r, m), bBn("x", n + 1, m, q), bCn("x", n + 1, r, q), e; for (auto* z : {&bA, &bn}) c.rejects([&] { b3::multiply(n, al, *z, B, be, C); }, "multiply3-mismatch-rejected"); for (auto* z : {&bB, &bBn}) c.rejects([&] { b3::multiply(n, al, A, *z, be, C); }, "multiply3-mismatch-rejected"); for (auto* z : {&bC, &bCn}) c.rejects([&] { b3::multiply(n, al, A, B, be, *z); }, "multiply3-mismatch-rejected"); if (k < 20) { c.rejects([&] { b3::multiply(n, al, e, B, be, C); }, "multiply3-empty-rejected"); c.rejects([&] { b3::multiply(n, al, A, e, be, C); }, "multiply3-empty-rejected"); c.rejects([&] { b3::multiply(n, al, A, B, be, e); }, "multiply3-empty-rejected"); }
    D x = rnd(g, n * r * m); auto X = mk3(x, n, r, m); A = mk3(a, n, r, m); b3::update(n, al, A, be, X); for (size_t i = 0; i < x.size(); ++i) x[i] = al * a[i] + be * x[i]; cmp(c, get(X), x, "update3", std::fabs(al) * amax(a) + std::fabs(be) * amax(x) + sc, 1e-13); same(c, get(A), a, "update3-input"); c.rejects([&] { b3::update(n, al, A, be, bA); }, "update3-mismatch-rejected"); c.rejects([&] { V3 t("t", n, r + 1, m); b3::update(n, al, A, be, t); }, "update3-mismatch-rejected"); c.rejects([&] { b3::update(0, al, A, be, X); }, "update3-cells-rejected"); c.rejects([&] { b3::update(n, al, e, be, X); }, "update3-empty-rejected"); c.rejects([&] { b3::update(n, al, A, be, e); }, "update3-empty-rejected"); } }
