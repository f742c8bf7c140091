// C10: the integration rules are exact for polynomials up to the degree they advertise, on every simplex.
#include "geom.hpp"
#include "alg/Cubature.hpp"
#include "alg/Basis.hpp"
#include "LinearTetCubRuleDegreeOne.hpp"
using namespace kk; using namespace gm;
static double fact(int n) { double f = 1; for (int i = 2; i <= n; ++i) f *= i; return f; }
struct Poly { int d; std::vector<std::vector<int>> e; D a; };
static Poly poly(Rng& g, int d, int deg) { Poly p; p.d = d; for (int i = 0; i <= deg; ++i) for (int j = 0; j <= (d > 1 ? deg - i : 0); ++j) for (int k = 0; k <= (d > 2 ? deg - i - j : 0); ++k) { p.e.push_back({i, j, k}); p.a.push_back(g.coin(0.3) ? 0 : g.real()); } return p; }
static double val(const Poly& p, const D& x) { double s = 0; for (size_t q = 0; q < p.a.size(); ++q) { double t = p.a[q]; for (int j = 0; j < p.d; ++j) for (int k = 0; k < p.e[q][j]; ++k) t *= x[j]; s += t; } return s; }
static double ref(const Poly& p) { double s = 0; for (size_t q = 0; q < p.a.size(); ++q) { int t = 0; double f = 1; for (int j = 0; j < p.d; ++j) { t += p.e[q][j]; f *= fact(p.e[q][j]); } s += p.a[q] * f / fact(t + p.d); } return s; }
static void rule(Ctx& c, int d, int deg) { auto& g = c.rng; int n = Plato::Cubature::getNumCubaturePoints(d, deg); c.begin(str("rule dim=", d, " degree=", deg, " seed=", g.u64())); if (!c.check(n >= 1 && n < 64, "number-of-points", str(n))) return;
  Plato::Cubature::RefPointsView P("P", n, d); Plato::Cubature::WeightsView W("W", n); for (int i = 0; i < n; ++i) { W(i) = NAN; for (int j = 0; j < d; ++j) P(i, j) = NAN; } Plato::Cubature::getCubature(d, deg, P, W); double sum = 0;
  for (int i = 0; i < n; ++i) { double s = 0; sum += W(i); for (int j = 0; j < d; ++j) { c.check(P(i, j) >= 0 && P(i, j) <= 1, "point-inside", str(P(i, j))); s += P(i, j); } c.check(s >= 0 && s <= 1 + 1e-14, "point-inside", str(s)); }
  c.close(sum, 1 / fact(d), "weights-sum-to-volume", 1, 1e-13);
  int k = std::max(deg, 1); for (int t = 0; t < 4; ++t) { Poly p = poly(g, d, k); double q = 0; for (int i = 0; i < n; ++i) { D x; for (int j = 0; j < d; ++j) x.push_back(P(i, j)); q += W(i) * val(p, x); } c.close(q, ref(p), "polynomial-exactness", amax(p.a) * p.a.size(), 1e-12, str("dim ", d, " degree ", deg)); }
  // a symmetric rule: exchanging vertices maps the rule on itself, so the numbering of a cell's nodes cannot change an integral
  for (int v = 0; v <= d; ++v) for (int w = v + 1; w <= d; ++w) for (int i = 0; i < n; ++i) { auto bary = [&](int q) { D b(d + 1, 0.0); b[0] = 1; for (int j = 0; j < d; ++j) { b[j + 1] = P(q, j); b[0] -= P(q, j); } return b; }; D b = bary(i); std::swap(b[v], b[w]); bool hit = false; for (int q = 0; q < n; ++q) { D e = bary(q); double m = 0; for (int j = 0; j <= d; ++j) m = std::max(m, std::fabs(e[j] - b[j])); if (m < 1e-12 && std::fabs(W(q) - W(i)) < 1e-12) hit = true; } c.check(hit, "node-numbering-invariance", str("dim ", d, " degree ", deg)); }
  // shape
  if (g.coin(0.3)) { int dn = g.pick(std::vector<int>{-1, 1, 2}); if (n + dn >= 0) { Plato::Cubature::RefPointsView P2("P", n + dn, d); Plato::Cubature::WeightsView W2("W", n + dn); c.rejects([&] { Plato::Cubature::getCubature(d, deg, P2, W); }, "wrong-number-of-points"); c.rejects([&] { Plato::Cubature::getCubature(d, deg, P, W2); }, "wrong-number-of-weights"); } Plato::Cubature::RefPointsView P3("P", n, d + g.pick(std::vector<int>{-1, 1})); c.rejects([&] { Plato::Cubature::getCubature(d, deg, P3, W); }, "wrong-point-dimension"); } }
template <int d> static void lin(Ctx& c) { auto& g = c.rng; Plato::LinearTetCubRuleDegreeOne<d> r; Cell k = cell(g, d, std::pow(10, g.uni(-3, 3))); c.begin(str("linear rule dim=", d, " x=", k.x[0][0])); auto b = r.getBasisFunctions(); auto x = r.getCubPointsCoords(); c.check(r.getNumCubPoints() == 1 && (int)b.size() == d + 1 && (int)x.size() == d, "linear-rule-shape"); c.close(r.getCubWeight(), 1 / fact(d), "linear-rule-weight", 0, 1e-14); double s = 0; for (int a = 0; a <= d; ++a) s += b(a); c.close(s, 1, "partition-of-unity", 1, 1e-14); double rest = 1; for (int j = 0; j < d; ++j) { rest -= x(j); c.close(b(j + 1), x(j), "basis-at-point", 1, 1e-14); } c.close(b(0), rest, "basis-at-point", 1, 1e-14);
  auto q = affine(g, 1, d); double J = k.vol * fact(d), got = 0, mag = 0; D nod; for (int a = 0; a <= d; ++a) { double v = at(q, 0, k.x[a]); nod.push_back(v); got += b(a) * v; mag = std::max(mag, std::fabs(v)); } got *= r.getCubWeight() * J; double want = 0; for (double v : nod) want += v * k.vol / (d + 1); c.close(got, want, "linear-field-integral", mag * k.vol, 1e-12); }
VH_GROUP(rules) { for (int i = 0; i < c.n(150, 5000); ++i) for (int d = 1; d <= 3; ++d) for (int k = -1; k <= 3; ++k) rule(c, d, k); }
VH_GROUP(unsupported) { for (int i = 0; i < c.n(300, 5000); ++i) { int d = c.rng.in(1, 3), k = c.rng.in(4, 40), bad = c.rng.coin() ? -c.rng.in(0, 5) : c.rng.in(4, 20), kk = c.rng.in(0, 3); c.begin(str("unsupported ", d, " ", k, " ", bad, " ", kk)); c.rejects([&] { Plato::Cubature::getNumCubaturePoints(d, k); }, "unsupported-degree"); c.rejects([&] { Plato::Cubature::getNumCubaturePoints(bad, kk); }, "unsupported-dimension"); Plato::Cubature::RefPointsView P("P", 5, d); Plato::Cubature::WeightsView W("W", 5); c.rejects([&] { Plato::Cubature::getCubature(d, k, P, W); }, "unsupported-degree-rule"); c.rejects([&] { Plato::Cubature::getCubature(bad, kk, P, W); }, "unsupported-dimension-rule"); } }
VH_GROUP(linear) { for (int i = 0; i < c.n(2000, 50000); ++i) { lin<1>(c); lin<2>(c); lin<3>(c); } }
// the basis of the reference simplex: barycentric functions, nodal, summing to one, with their exact gradients
VH_GROUP(basis) { auto& g = c.rng; using V2 = Kokkos::View<double**, Plato::Layout, Plato::MemSpace>; using V3 = Kokkos::View<double***, Plato::Layout, Plato::MemSpace>; for (int it = 0; it < c.n(200, 4000); ++it) for (int d = 1; d <= 3; ++d) { Plato::Basis B(d); int n = g.num(6, 60); c.begin(str("basis dim=", d, " points=", n, " ", g.u64() % 1000000)); if (!c.check(B.basisCardinality() == d + 1, "basis-size")) continue; auto junk = [&](V2 v) { for (size_t i = 0; i < v.extent(0); ++i) for (size_t j = 0; j < v.extent(1); ++j) v(i, j) = NAN; }; V2 R("r", d + 1, d), W("w", d + 1, d + 1); junk(R); junk(W); B.getRefCoords(R); B.getValues(R, W); for (int i = 0; i <= d; ++i) for (int j = 0; j <= d; ++j) c.close(W(i, j), i == j ? 1 : 0, "basis-nodal", 1, 1e-14);
    V2 P("p", n, d), V("v", d + 1, n), U("u", d + 1, n); V3 G("g", d + 1, n, d); junk(V); for (int i = 0; i <= d; ++i) for (int j = 0; j < n; ++j) for (int k = 0; k < d; ++k) G(i, j, k) = NAN; for (int j = 0; j < n; ++j) { double s = 0; for (int k = 0; k < d; ++k) { P(j, k) = g.coin(0.1) ? 0 : g.uni(0, 1); s += P(j, k); } if (s > 1) for (int k = 0; k < d; ++k) P(j, k) /= s; } B.getValues(P, V); B.getGradientValues(P, G);
    D a = uni(g, d + 1); for (int j = 0; j < n; ++j) { double s = 0, w = a[d]; D x(d, 0.0); for (int i = 0; i <= d; ++i) { s += V(i, j); c.check(V(i, j) >= -1e-14 && V(i, j) <= 1 + 1e-14, "basis-range"); for (int k = 0; k < d; ++k) x[k] += V(i, j) * R(i, k); } c.close(s, 1, "basis-partition-of-unity", 0, 1e-13); for (int k = 0; k < d; ++k) c.close(x[k], P(j, k), "basis-reproduces-position", 1, 1e-13); for (int k = 0; k < d; ++k) { double e = 0; for (int i = 0; i <= d; ++i) e += G(i, j, k) * (a[d] + [&] { double q = 0; for (int l = 0; l < d; ++l) q += a[l] * R(i, l); return q; }()); c.close(e, a[k], "basis-gradient-of-affine-field", 4, 1e-12); double t = 0; for (int i = 0; i <= d; ++i) t += G(i, j, k); c.close(t, 0, "basis-gradient-sum", 1, 1e-13); } (void)w; } } }
