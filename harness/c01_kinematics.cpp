// C01: every affine nodal field is differentiated and interpolated exactly on every simplex.
#include "geom.hpp"
#include "SimplexStabilizedMechanics.hpp"
#include "Kinematics.hpp"
#include "TMKinematics.hpp"
#include "EMKinematics.hpp"
#include "InterpolateFromNodal.hpp"
#include "InterpolateGradientFromScalarNodal.hpp"
#include "PressureGradient.hpp"
#include "ProjectToNode.hpp"
#include "ComplexStrain.hpp"
#include "StateValues.hpp"
#include "StrainDivergence.hpp"
#include "DotProduct.hpp"
#include "alg/Basis.hpp"
using namespace kk; using namespace gm;
// nodal state of nf affine fields, one row per cell; fields differ per cell
struct Field { std::vector<Affine> f; V2 s; double smax; };
static Field field(Rng& g, const Mesh& m, int nf, int rigid = 0) { Field F; F.s = V2("state", m.n, (m.d + 1) * nf); F.smax = 0;
  for (int i = 0; i < m.n; ++i) { Affine a = affine(g, nf, m.d);
    if (rigid) { for (int p = 0; p < m.d; ++p) for (int q = 0; q < m.d; ++q) a.A[p][q] = (p == q) ? 0 : (p < q ? a.A[p][q] : -a.A[q][p]); }
    for (int k = 0; k <= m.d; ++k) for (int j = 0; j < nf; ++j) { F.s(i, k * nf + j) = at(a, j, m.c[i].x[k]); F.smax = std::max(F.smax, std::fabs(F.s(i, k * nf + j))); } F.f.push_back(a); } return F; }
static D gradOf(const Affine& a, int j) { return a.A[j]; }
static std::vector<D> head(const Affine& a, int d) { return std::vector<D>(a.A.begin(), a.A.begin() + d); }
static std::string desc(const Mesh& m, const char* w, int nf, int rigid) { return str(w, " d=", m.d, " cells=", m.n, " fields=", nf, " rigid=", rigid, " x0=", m.c[0].x[0][0], " g=", m.c[0].g[0][0]); }
// kernel called for a random subset of the cells in random order: the others must stay untouched
static std::vector<int> subset(Rng& g, int n, std::vector<char>& in) { std::vector<int> o; in.assign(n, 0); for (int i = 0; i < n; ++i) if (g.coin(0.8) || n == 1) { o.push_back(i); in[i] = 1; } for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[g.in(0, i - 1)]); return o; }
template <class F> static void cmpRows(Ctx& c, const V2& v, const V2& before, const std::vector<char>& in, F want, const std::string& key, double scale) {
  for (size_t i = 0; i < v.extent(0); ++i) { if (in[i]) cmp(c, row(v, i), want((int)i), key, scale, 1e-11); else same(c, row(v, i), row(before, i), key + "-other-cell-untouched"); } }
static V2 copy(const V2& v) { V2 w("copy", v.extent(0), v.extent(1)); for (size_t i = 0; i < v.extent(0); ++i) for (size_t j = 0; j < v.extent(1); ++j) w(i, j) = v(i, j); return w; }
template <int d> static void run(Ctx& c, int it) { auto& g = c.rng; const int n = g.num(9); Mesh m = mesh(g, d, n); std::vector<char> in; auto order = subset(g, n, in); const int rigid = g.coin(0.2); double G = 0; for (auto& k : m.c) G = std::max(G, gmax(k));
  auto zero = [&](int w) { V2 v("out", n, w); return v; }; auto junk = [&](int w) { V2 v("out", n, w); for (int i = 0; i < n; ++i) for (int j = 0; j < w; ++j) v(i, j) = g.real(); return v; };
  { Field F = field(g, m, d + 1, rigid); c.begin(desc(m, "thermomechanical", d + 1, rigid)); D s0 = get(F.s), G0 = get(m.G); V2 e = zero(nv(d)), q = junk(d), e0 = copy(e), q0 = copy(q); Plato::TMKinematics<d> k; for (int i : order) k(i, e, q, F.s, m.G);
    double sc = F.smax * G; cmpRows(c, e, e0, in, [&](int i) { return eng(d, head(F.f[i], d)); }, "tm-strain", sc); cmpRows(c, q, q0, in, [&](int i) { return gradOf(F.f[i], d); }, "tm-temperature-gradient", sc);
    if (rigid) for (int i : order) for (double v : row(e, i)) c.check(std::fabs(v) <= 1e-11 * sc, "rigid-motion-no-strain", str(v));
    same(c, get(F.s), s0, "state-untouched"); same(c, get(m.G), G0, "gradient-untouched");
    V2 e2 = zero(nv(d)), f2 = junk(d), e20 = copy(e2), f20 = copy(f2); Plato::EMKinematics<d> em; for (int i : order) em(i, e2, f2, F.s, m.G);
    cmpRows(c, e2, e20, in, [&](int i) { return eng(d, head(F.f[i], d)); }, "em-strain", sc); cmpRows(c, f2, f20, in, [&](int i) { D r = gradOf(F.f[i], d); for (auto& v : r) v = -v; return r; }, "em-electric-field", sc);
    V2 e3 = zero(nv(d)), p3 = junk(d), e30 = copy(e3), p30 = copy(p3); Plato::StabilizedKinematics<d> sk; for (int i : order) sk(i, e3, p3, F.s, m.G);
    cmpRows(c, e3, e30, in, [&](int i) { return eng(d, head(F.f[i], d)); }, "stabilized-strain", sc); cmpRows(c, p3, p30, in, [&](int i) { return gradOf(F.f[i], d); }, "stabilized-pressure-gradient", sc);
    V1 dv("div", n); for (int i = 0; i < n; ++i) dv(i) = 7; Plato::StrainDivergence<d> sd; for (int i : order) sd(i, e, dv); for (int i = 0; i < n; ++i) { double t = 0; for (int j = 0; j < d; ++j) t += F.f[i].A[j][j]; if (in[i]) c.close(dv(i), t, "strain-divergence", sc, 1e-11); else c.check(dv(i) == 7, "strain-divergence-other-cell"); }
    V1 dp("dot", n); for (int i = 0; i < n; ++i) dp(i) = 7; Plato::DotProduct<d> dot; for (int i : order) dot(i, q, f2, dp); for (int i = 0; i < n; ++i) { double t = 0, s = 0; for (int j = 0; j < d; ++j) { t += q(i, j) * f2(i, j); s += std::fabs(q(i, j) * f2(i, j)); } if (in[i]) c.close(dp(i), t, "dot-product", s, 1e-12); else c.check(dp(i) == 7, "dot-product-other-cell"); } }
  { Field F = field(g, m, d + 2, rigid); c.begin(desc(m, "stabilized thermomechanical", d + 2, rigid)); double sc = F.smax * G; V2 e = zero(nv(d)), p = junk(d), t = junk(d), e0 = copy(e), p0 = copy(p), t0 = copy(t); Plato::StabilizedTMKinematics<d> k; for (int i : order) k(i, e, p, t, F.s, m.G);
    cmpRows(c, e, e0, in, [&](int i) { return eng(d, head(F.f[i], d)); }, "stabilized-tm-strain", sc); cmpRows(c, p, p0, in, [&](int i) { return gradOf(F.f[i], d); }, "stabilized-tm-pressure-gradient", sc); cmpRows(c, t, t0, in, [&](int i) { return gradOf(F.f[i], d + 1); }, "stabilized-tm-temperature-gradient", sc); }
  { Field F = field(g, m, 2 * d, 0); c.begin(desc(m, "complex displacement", 2 * d, 0)); double sc = F.smax * G; const int nc = g.in(1, 2); V3 e("e", n, nc, nv(d)); Plato::ComplexStrain<d, 2 * d> k; for (int i : order) k(i, F.s, m.G, e);
    for (int i = 0; i < n; ++i) for (int q = 0; q < nc; ++q) { std::vector<D> A(F.f[i].A.begin() + q * d, F.f[i].A.begin() + (q + 1) * d); D w = in[i] ? eng(d, A) : D(nv(d), 0.0); cmp(c, row(e, i, q), w, "complex-strain", sc, 1e-11); } }
  { Field F = field(g, m, 1, 0); double sc0 = g.real(); c.begin(desc(m, "pressure", 1, 0)); V2 p = junk(d), p0 = copy(p); Plato::PressureGradient<d> k(sc0); for (int i : order) k(i, p, F.s, m.G); cmpRows(c, p, p0, in, [&](int i) { D r = gradOf(F.f[i], 0); for (auto& v : r) v *= sc0; return r; }, "pressure-gradient", std::fabs(sc0) * F.smax * G);
    Plato::PressureGradient<d> k1; V2 q = junk(d), q0 = copy(q); for (int i : order) k1(i, q, F.s, m.G); cmpRows(c, q, q0, in, [&](int i) { return gradOf(F.f[i], 0); }, "pressure-gradient-unscaled", F.smax * G); }
  // interpolation: barycentric weights reproduce the affine field at the point
  { Field F = field(g, m, d + 2, 0); D w(d + 1); double s = 0; for (auto& v : w) { v = g.uni(0.01, 1); s += v; } for (auto& v : w) v /= s; V1 bf = mk1(w); c.begin(str(desc(m, "interpolation", d + 2, 0), " w=", w[0]));
    auto pt = [&](int i) { D x(d, 0.0); for (int a = 0; a <= d; ++a) for (int j = 0; j < d; ++j) x[j] += w[a] * m.c[i].x[a][j]; return x; };
    V2 all = junk(d + 2), all0 = copy(all); Plato::StateValues sv; for (int i : order) sv(i, bf, F.s, all); cmpRows(c, all, all0, in, [&](int i) { D r; for (int j = 0; j < d + 2; ++j) r.push_back(at(F.f[i], j, pt(i))); return r; }, "state-values", F.smax);
    V1 o("o", n); Plato::InterpolateFromNodal<d, d + 2, d> ip; for (int i = 0; i < n; ++i) o(i) = 5; for (int i : order) ip(i, bf, F.s, o); for (int i = 0; i < n; ++i) if (in[i]) c.close(o(i), at(F.f[i], d, pt(i)), "interpolate-scalar", F.smax, 1e-11); else c.check(o(i) == 5, "interpolate-other-cell");
    V2 vv = junk(d), vv0 = copy(vv); Plato::InterpolateFromNodal<d, d + 2, 0, d> iv; for (int i : order) iv(i, bf, F.s, vv); cmpRows(c, vv, vv0, in, [&](int i) { D r; for (int j = 0; j < d; ++j) r.push_back(at(F.f[i], j, pt(i))); return r; }, "interpolate-vector", F.smax);
    V2 v2 = junk(2), v20 = copy(v2); Plato::InterpolateFromNodal<d, d + 2, d, 2> i2; for (int i : order) i2(i, bf, F.s, v2); cmpRows(c, v2, v20, in, [&](int i) { return D{at(F.f[i], d, pt(i)), at(F.f[i], d + 1, pt(i))}; }, "interpolate-offset-vector", F.smax);
    V2 g1 = junk(d), g10 = copy(g1), g2 = junk(d), g20 = copy(g2); Plato::InterpolateGradientFromScalarNodal<d, d + 2, d> ig; Plato::InterpolateGradientFromScalarNodal<d, d + 2> ih; for (int i : order) { ig(i, m.G, F.s, g1); ih(i, m.G, F.s, g2); } cmpRows(c, g1, g10, in, [&](int i) { return gradOf(F.f[i], d); }, "interpolate-gradient", F.smax * G); cmpRows(c, g2, g20, in, [&](int i) { return gradOf(F.f[i], 0); }, "interpolate-gradient-first-dof", F.smax * G);
    // projection is the transpose of interpolation, weighted by volume and scale, and accumulates
    double sc = g.nz(); V2 r = junk((d + 1) * (d + 2)), r0 = copy(r); Plato::ProjectToNode<d, d + 2, 0> pj; for (int i : order) pj(i, m.vol, bf, all, r, sc); double ps = F.smax * m.c[0].vol * std::fabs(sc) + amax(get(r0));
    for (int i = 0; i < n; ++i) { D want; for (int a = 0; a <= d; ++a) for (int j = 0; j < d + 2; ++j) want.push_back(r0(i, a * (d + 2) + j) + (in[i] ? sc * w[a] * all(i, j) * m.c[i].vol : 0)); cmp(c, row(r, i), want, "project-vector", std::max(ps, amax(get(all)) * m.c[i].vol * std::fabs(sc)), 1e-11); }
    for (int i : order) { double tot = 0, t0 = 0, ab = 0; for (int a = 0; a <= d; ++a) { tot += r(i, a * (d + 2)); t0 += r0(i, a * (d + 2)); ab += std::fabs(r(i, a * (d + 2))) + std::fabs(r0(i, a * (d + 2))); } c.close(tot - t0, sc * all(i, 0) * m.c[i].vol, "projection-conserves-total", ab, 1e-11); }
    V2 r1 = junk((d + 1) * (d + 2)), r10 = copy(r1); Plato::ProjectToNode<d, d + 2, d> p1; for (int i : order) p1(i, m.vol, bf, o, r1, sc);
    for (int i = 0; i < n; ++i) { D want; for (int a = 0; a <= d; ++a) for (int j = 0; j < d + 2; ++j) want.push_back(r10(i, a * (d + 2) + j) + (in[i] && j == d ? sc * w[a] * o(i) * m.c[i].vol : 0)); cmp(c, row(r1, i), want, "project-scalar", amax(want) + F.smax * m.c[i].vol * std::fabs(sc), 1e-11); } 
    V2 r2 = zero((d + 1) * d); Plato::ProjectToNode<d> p2; for (int i : order) p2(i, m.vol, bf, vv, r2); for (int i : order) { D want; for (int a = 0; a <= d; ++a) for (int j = 0; j < d; ++j) want.push_back(w[a] * vv(i, j) * m.c[i].vol); cmp(c, row(r2, i), want, "project-default-scale", amax(want), 1e-11); } }
}
VH_GROUP(line) { for (int i = 0; i < c.n(300, 6000); ++i) run<1>(c, i); }
VH_GROUP(triangle) { for (int i = 0; i < c.n(400, 8000); ++i) run<2>(c, i); }
VH_GROUP(tetrahedron) { for (int i = 0; i < c.n(400, 8000); ++i) run<3>(c, i); }
