// C02: internal-force kernels are the exact adjoints of the gradient kernels (virtual work, force and moment balance).
#include "geom.hpp"
#include "StressDivergence.hpp"
#include "FluxDivergence.hpp"
#include "PressureDivergence.hpp"
#include "ComplexStressDivergence.hpp"
#include "ComplexStrain.hpp"
#include "TMKinematics.hpp"
using namespace kk; using namespace gm;
static V2 jk(Rng& g, int n, int w) { V2 v("junk", n, w); for (int i = 0; i < n; ++i) for (int j = 0; j < w; ++j) v(i, j) = g.real(); return v; }
static V2 copy(const V2& v) { V2 w("copy", v.extent(0), v.extent(1)); for (size_t i = 0; i < v.extent(0); ++i) for (size_t j = 0; j < v.extent(1); ++j) w(i, j) = v(i, j); return w; }
template <int d, int ND, int OFF> static void stress(Ctx& c) { auto& g = c.rng; const int n = g.num(7); Mesh m = mesh(g, d, n); V2 s = jk(g, n, nv(d)), r = jk(g, n, (d + 1) * ND), r0 = copy(r); double sc = g.nz(); bool dflt = g.coin(0.3); if (dflt) sc = 1;
  c.begin(str("stress d=", d, " dofs=", ND, " offset=", OFF, " cells=", n, " scale=", sc, " s=", s(0, 0))); Plato::StressDivergence<d, ND, OFF> k; std::vector<char> in(n, 0); D s0 = get(s);
  for (int i = n - 1; i >= 0; --i) if (g.coin(0.8)) { in[i] = 1; if (dflt) k(i, r, s, m.G, m.vol); else k(i, r, s, m.G, m.vol, sc); }
  same(c, get(s), s0, "stress-untouched"); auto vg = voigt(d);
  for (int i = 0; i < n; ++i) { auto T = tens(d, row(s, i)); double mag = std::fabs(sc) * m.c[i].vol * amax(row(s, i)) * gmax(m.c[i]) + amax(row(r0, i)); D want = row(r0, i);
    if (in[i]) for (int a = 0; a <= d; ++a) for (int p = 0; p < d; ++p) { double t = 0; for (int q = 0; q < d; ++q) t += T[p][q] * m.c[i].g[a][q]; want[a * ND + OFF + p] += sc * m.c[i].vol * t; }
    cmp(c, row(r, i), want, in[i] ? "stress-divergence" : "stress-divergence-other-cell", in[i] ? mag : 0, in[i] ? 1e-11 : 0);
    if (!in[i]) continue;
    // force and moment balance, virtual work with the repository's own kinematics
    double h = 0; for (auto& x : m.c[i].x) h = std::max(h, amax(x)); for (int p = 0; p < d; ++p) { double f = 0; for (int a = 0; a <= d; ++a) f += r(i, a * ND + OFF + p) - r0(i, a * ND + OFF + p); c.check(std::fabs(f) <= 1e-11 * mag * (d + 1), "force-balance", str(f, " mag ", mag)); }
    for (int p = 0; p < d; ++p) for (int q = p + 1; q < d; ++q) { double f = 0; for (int a = 0; a <= d; ++a) f += m.c[i].x[a][p] * (r(i, a * ND + OFF + q) - r0(i, a * ND + OFF + q)) - m.c[i].x[a][q] * (r(i, a * ND + OFF + p) - r0(i, a * ND + OFF + p)); c.check(std::fabs(f) <= 1e-11 * mag * h * 4 * (d + 1), "moment-balance", str(f, " mag ", mag * h)); }
    V2 u = jk(g, 1, (d + 1) * (d + 1)), e("e", 1, nv(d)), tg("t", 1, d); V3 G1("G", 1, d + 1, d); for (int a = 0; a <= d; ++a) for (int j = 0; j < d; ++j) G1(0, a, j) = m.G(i, a, j); Plato::TMKinematics<d> tm; tm(0, e, tg, u, G1);
    double w = 0, iw = 0, ab = 0; for (int a = 0; a <= d; ++a) for (int p = 0; p < d; ++p) { double t = u(0, a * (d + 1) + p) * (r(i, a * ND + OFF + p) - r0(i, a * ND + OFF + p)); w += t; ab += std::fabs(t) + std::fabs(u(0, a * (d + 1) + p)) * mag; } for (int v = 0; v < nv(d); ++v) iw += sc * m.c[i].vol * s(i, v) * e(0, v);
    c.close(w, iw, "virtual-work", ab, 1e-11); } }
template <int d, int ND, int OFF> static void flux(Ctx& c) { auto& g = c.rng; const int n = g.num(7); Mesh m = mesh(g, d, n); V2 q = jk(g, n, d), r = jk(g, n, (d + 1) * ND), r0 = copy(r); double sc = g.coin(0.3) ? 1.0 : g.nz(); c.begin(str("flux d=", d, " dofs=", ND, " offset=", OFF, " cells=", n, " scale=", sc, " q=", q(0, 0)));
  Plato::FluxDivergence<d, ND, OFF> k; std::vector<char> in(n, 0); for (int i = 0; i < n; ++i) if (g.coin(0.8)) { in[i] = 1; if (sc == 1.0) k(i, r, q, m.G, m.vol); else k(i, r, q, m.G, m.vol, sc); }
  for (int i = 0; i < n; ++i) { double mag = std::fabs(sc) * m.c[i].vol * amax(row(q, i)) * gmax(m.c[i]) + amax(row(r0, i)); D want = row(r0, i); double tot = 0; if (in[i]) for (int a = 0; a <= d; ++a) { double t = 0; for (int j = 0; j < d; ++j) t += q(i, j) * m.c[i].g[a][j]; want[a * ND + OFF] += sc * m.c[i].vol * t; tot += r(i, a * ND + OFF) - r0(i, a * ND + OFF); }
    cmp(c, row(r, i), want, in[i] ? "flux-divergence" : "flux-divergence-other-cell", in[i] ? mag : 0, in[i] ? 1e-11 : 0); c.check(std::fabs(tot) <= 1e-11 * mag * (d + 1), "flux-balance", str(tot)); } }
template <int d, int ND, int OFF> static void press(Ctx& c) { auto& g = c.rng; const int n = g.num(7); Mesh m = mesh(g, d, n); V1 p = mk1(rnd(g, n)); V2 r = jk(g, n, (d + 1) * ND), r0 = copy(r); double sc = g.coin(0.3) ? 1.0 : g.nz(); c.begin(str("pressure d=", d, " dofs=", ND, " offset=", OFF, " cells=", n, " scale=", sc, " p=", p(0)));
  Plato::PressureDivergence<d, ND, OFF> k; std::vector<char> in(n, 0); for (int i = 0; i < n; ++i) if (g.coin(0.8)) { in[i] = 1; if (sc == 1.0) k(i, r, p, m.G, m.vol); else k(i, r, p, m.G, m.vol, sc); }
  for (int i = 0; i < n; ++i) { double mag = std::fabs(sc * p(i)) * m.c[i].vol * gmax(m.c[i]) + amax(row(r0, i)); D want = row(r0, i); if (in[i]) for (int a = 0; a <= d; ++a) for (int j = 0; j < d; ++j) want[a * ND + OFF + j] += sc * m.c[i].vol * p(i) * m.c[i].g[a][j];
    cmp(c, row(r, i), want, in[i] ? "pressure-divergence" : "pressure-divergence-other-cell", in[i] ? mag : 0, in[i] ? 1e-11 : 0); }
  // a hydrostatic stress field and a pressure field give the same forces
  V2 s("s", n, nv(d)); for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) s(i, j) = p(i); V2 a("a", n, (d + 1) * ND), b("b", n, (d + 1) * ND); Plato::StressDivergence<d, ND, OFF> sd; for (int i = 0; i < n; ++i) { sd(i, a, s, m.G, m.vol, sc); k(i, b, p, m.G, m.vol, sc); cmp(c, row(a, i), row(b, i), "hydrostatic-stress-equals-pressure", amax(row(b, i)), 1e-11); } }
template <int d> static void cplx(Ctx& c) { auto& g = c.rng; const int n = g.num(7), nc = g.in(1, 2); Mesh m = mesh(g, d, n); V3 s = mk3(rnd(g, n * nc * nv(d)), n, nc, nv(d)); V2 f = jk(g, n, (d + 1) * 2 * d), f0 = copy(f); c.begin(str("complex d=", d, " parts=", nc, " cells=", n, " s=", s(0, 0, 0))); Plato::ComplexStressDivergence<d, 2 * d> k; std::vector<char> in(n, 0); for (int i = 0; i < n; ++i) if (g.coin(0.8)) { in[i] = 1; k(i, m.vol, m.G, s, f); }
  for (int i = 0; i < n; ++i) { D want = row(f0, i); double mag = 0; if (in[i]) for (int q = 0; q < nc; ++q) { auto T = tens(d, row(s, i, q)); mag = std::max(mag, m.c[i].vol * amax(row(s, i, q)) * gmax(m.c[i])); for (int a = 0; a <= d; ++a) for (int p = 0; p < d; ++p) { double t = 0; for (int j = 0; j < d; ++j) t += T[p][j] * m.c[i].g[a][j]; want[a * 2 * d + q * d + p] = m.c[i].vol * t; } }
    cmp(c, row(f, i), want, in[i] ? "complex-stress-divergence" : "complex-other-cell", in[i] ? mag : 0, in[i] ? 1e-11 : 0);
    if (in[i] && nc == 2) { V2 u = jk(g, n, (d + 1) * 2 * d); V3 e("e", n, 2, nv(d)); Plato::ComplexStrain<d, 2 * d> cs; cs(i, u, m.G, e); double w = 0, iw = 0, ab = 0; for (int j = 0; j < (d + 1) * 2 * d; ++j) { w += u(i, j) * f(i, j); ab += std::fabs(u(i, j)) * mag; } for (int q = 0; q < 2; ++q) for (int v = 0; v < nv(d); ++v) iw += m.c[i].vol * s(i, q, v) * e(i, q, v); c.close(w, iw, "complex-virtual-work", ab, 1e-11); } } }
template <int d> static void all(Ctx& c) { stress<d, d, 0>(c); stress<d, d + 1, 0>(c); stress<d, d + 2, 0>(c); stress<d, d + 2, 1>(c); stress<d, 2 * d + 1, d>(c); flux<d, 1, 0>(c); flux<d, d + 1, d>(c); flux<d, d + 2, d + 1>(c); flux<d, d + 2, d>(c); press<d, d, 0>(c); press<d, d + 1, 0>(c); press<d, d + 2, 1>(c); cplx<d>(c); }
VH_GROUP(line) { for (int i = 0; i < c.n(100, 2500); ++i) all<1>(c); }
VH_GROUP(triangle) { for (int i = 0; i < c.n(150, 3000); ++i) all<2>(c); }
VH_GROUP(tetrahedron) { for (int i = 0; i < c.n(150, 3000); ++i) all<3>(c); }
