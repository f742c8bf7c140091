// C14: the frequency-domain kernels are the complex forms of mass, stiffness and damping: adjoint pairs are transposes, energies are the quadratic forms of the forces.
#include "geom.hpp"
#include "SimplexFadTypes.hpp"
#include "RayleighDamping.hpp"
#include "ComplexRayleighDamping.hpp"
#include "AdjointComplexRayleighDamping.hpp"
#include "ComplexElasticEnergy.hpp"
#include "ComplexInertialEnergy.hpp"
#include "ComputeFrequencyResponseMisfit.hpp"
#include "StructuralDynamicsCellResidual.hpp"
#include "InertialForces.hpp"
#include "StateValues.hpp"
#include "LinearTetCubRuleDegreeOne.hpp"
using namespace kk; using namespace gm;
static V2 jk(Rng& g, int n, int w) { V2 v("junk", n, w); for (int i = 0; i < n; ++i) for (int j = 0; j < w; ++j) v(i, j) = g.real(); return v; }
static V2 copy(const V2& v) { V2 w("copy", v.extent(0), v.extent(1)); for (size_t i = 0; i < v.extent(0); ++i) for (size_t j = 0; j < v.extent(1); ++j) w(i, j) = v(i, j); return w; }
template <int d> static void damping(Ctx& c) { auto& g = c.rng; const int nn = g.coin(0.3) ? 1 : d + 1, W = nn * 2 * d; int n = g.num(6); double mu = g.coin(0.15) ? 0 : g.pos(), la = g.coin(0.15) ? 0 : g.pos(); V2 K = jk(g, n, W), M = jk(g, n, W), a = jk(g, n, W), a0 = copy(a), b = copy(a); D k0 = get(K), m0 = get(M); int how = g.in(0, 3), skip = g.in(0, n); c.begin(str("damping d=", d, " nodes=", nn, " cells=", n, " mu=", mu, " la=", la, " how=", how, " k=", K(0, 0)));
  Teuchos::ParameterList L; if (how == 1) { L.set("Rayleigh Mass Damping", mu); L.set("Rayleigh Stiffness Damping", la); } double me = mu, le = la; Plato::ComplexRayleighDamping<d> F = how == 0 ? Plato::ComplexRayleighDamping<d>(mu, la) : how == 3 ? Plato::ComplexRayleighDamping<d>() : Plato::ComplexRayleighDamping<d>(L); Plato::AdjointComplexRayleighDamping<d> A = how == 0 ? Plato::AdjointComplexRayleighDamping<d>(mu, la) : how == 3 ? Plato::AdjointComplexRayleighDamping<d>() : Plato::AdjointComplexRayleighDamping<d>(L); if (how == 2) me = le = 0; if (how == 3) { me = 0.025; le = 0.023; }
  for (int i = n - 1; i >= 0; --i) if (i != skip) { F(i, K, M, a); A(i, K, M, b); } same(c, get(K), k0, "damping-input"); same(c, get(M), m0, "damping-input");
  for (int i = 0; i < n; ++i) { double mag = me * amax(row(M, i)) + le * amax(row(K, i)); D wf = row(a0, i), wa = wf; if (i != skip) for (int p = 0; p < nn; ++p) for (int j = 0; j < d; ++j) { int re = p * 2 * d + j, im = re + d; double cr = me * M(i, re) + le * K(i, re), ci = me * M(i, im) + le * K(i, im); wf[re] = ci; wf[im] = -cr; wa[re] = -ci; wa[im] = cr; }
    cmp(c, row(a, i), wf, i == skip ? "damping-other-cell" : "complex-damping", i == skip ? 0 : mag, i == skip ? 0 : 1e-13); cmp(c, row(b, i), wa, i == skip ? "damping-other-cell" : "adjoint-complex-damping", i == skip ? 0 : mag, i == skip ? 0 : 1e-13);
    if (i != skip) { double e = 0; for (int j = 0; j < W; ++j) e += std::fabs(a(i, j) + b(i, j)); c.check(e <= 1e-12 * mag * W, "damping-adjoint-pair", str(e)); } } }
template <int N> static void rayleigh(Ctx& c) { auto& g = c.rng; int n = g.num(6); double mu = g.pos(), la = g.pos(); V2 K = jk(g, n, N), M = jk(g, n, N), a = jk(g, n, N), a0 = copy(a); int how = g.in(0, 3), skip = g.in(0, n); c.begin(str("rayleigh N=", N, " how=", how, " mu=", mu, " la=", la, " k=", K(0, 0))); Teuchos::ParameterList L; bool hm = how & 1, hl = how & 2; if (hm) L.set("Rayleigh Mass Damping", mu); if (hl) L.set("Rayleigh Stiffness Damping", la); bool lst = g.coin(), dflt = !lst && how == 0; if (dflt) { mu = 0.025; la = 0.023; } if (lst) { mu = hm ? mu : 0; la = hl ? la : 0; } Plato::RayleighDamping<N> k = lst ? Plato::RayleighDamping<N>(L) : dflt ? Plato::RayleighDamping<N>() : Plato::RayleighDamping<N>(mu, la); for (int i = 0; i < n; ++i) if (i != skip) k(i, K, M, a);
  for (int i = 0; i < n; ++i) { D w = row(a0, i); if (i != skip) for (int j = 0; j < N; ++j) w[j] = mu * M(i, j) + la * K(i, j); cmp(c, row(a, i), w, i == skip ? "rayleigh-other-cell" : "rayleigh", i == skip ? 0 : mu * amax(row(M, i)) + la * amax(row(K, i)), i == skip ? 0 : 1e-13); } }
template <int d> static void inertia(Ctx& c) { auto& g = c.rng; const int nd = 2 * d; int n = g.num(6); double rho = g.pos(), om = g.real(); Mesh m = mesh(g, d, n); V2 u = jk(g, n, (d + 1) * nd), sv("sv", n, nd), f = jk(g, n, (d + 1) * nd), f0 = copy(f); V1 e = mk1(rnd(g, n)); D e0 = get(e); c.begin(str("inertia d=", d, " cells=", n, " rho=", rho, " omega=", om, " u=", u(0, 0))); Plato::LinearTetCubRuleDegreeOne<d> q; auto bf = q.getBasisFunctions(); Plato::StateValues st; Plato::InertialForces I(rho); Plato::ComplexInertialEnergy<d> E(om, rho); int skip = g.in(0, n);
  for (int i = n - 1; i >= 0; --i) if (i != skip) { st(i, bf, u, sv); I(i, m.vol, bf, sv, f); E(i, m.vol, sv, e); }
  for (int i = 0; i < n; ++i) { D w = row(f0, i); double mag = rho * m.c[i].vol * amax(row(u, i)); if (i == skip) { cmp(c, row(f, i), w, "inertia-other-cell", 0, 0); c.check(e(i) == e0[i], "inertia-other-cell"); continue; }
    D s(nd, 0.0); for (int j = 0; j < nd; ++j) for (int a = 0; a <= d; ++a) s[j] += u(i, a * nd + j) / (d + 1); for (int a = 0; a <= d; ++a) for (int j = 0; j < nd; ++j) w[a * nd + j] = rho * m.c[i].vol / (d + 1) * s[j]; cmp(c, row(f, i), w, "inertial-forces", mag, 1e-12);
    double en = 0, wk = 0; for (int j = 0; j < nd; ++j) en += s[j] * s[j]; en *= -om * om * rho * m.c[i].vol; c.close(e(i), en, "inertial-energy", om * om * mag * amax(row(u, i)) * nd, 1e-11); for (int j = 0; j < (d + 1) * nd; ++j) wk += u(i, j) * f(i, j); c.close(-om * om * wk, e(i), "inertial-energy-is-work-of-forces", om * om * mag * amax(row(u, i)) * nd, 1e-11); c.check(e(i) <= 0, "inertial-energy-sign", str(e(i))); } }
template <int d> static void energy(Ctx& c) { auto& g = c.rng; int n = g.num(6), nc = g.in(1, 2), nvv = nv(d), skip = g.in(0, n); V3 s = mk3(rnd(g, n * nc * nvv), n, nc, nvv), t = mk3(rnd(g, n * nc * nvv), n, nc, nvv); V1 o = mk1(rnd(g, n)); D o0 = get(o); c.begin(str("elastic energy d=", d, " parts=", nc, " s=", s(0, 0, 0))); Plato::ComplexElasticEnergy<nv(d)> k; for (int i = 0; i < n; ++i) if (i != skip) k(i, s, t, o);
  for (int i = 0; i < n; ++i) { if (i == skip) { c.check(o(i) == o0[i], "energy-other-cell"); continue; } double w = 0, ab = 0; for (int q = 0; q < nc; ++q) for (int v = 0; v < nvv; ++v) { w += s(i, q, v) * t(i, q, v); ab += std::fabs(s(i, q, v) * t(i, q, v)); } c.close(o(i), w, "elastic-energy", ab, 1e-13); }
  V2 x = jk(g, n, (d + 1) * 2 * d), y = jk(g, n, (d + 1) * 2 * d); V1 z = mk1(rnd(g, n)); Plato::ComputeFrequencyResponseMisfit<d> M; for (int i = 0; i < n; ++i) if (i != skip) { M(i, x, y, z); double w = 0; for (int j = 0; j < (d + 1) * 2 * d; ++j) w += 0.5 * (x(i, j) - y(i, j)) * (x(i, j) - y(i, j)); c.close(z(i), w, "frequency-response-misfit", w, 1e-12); M(i, x, x, z); c.check(z(i) == 0, "misfit-of-equal-states"); }
  using F = Sacado::Fad::SFad<double, 4 * 6>; const int W = (d + 1) * 2 * d; Plato::ScalarMultiVectorT<F> Y("Y", n, W); Plato::ScalarVectorT<F> Z("Z", n); for (int i = 0; i < n; ++i) for (int j = 0; j < W; ++j) { Y(i, j) = F(y(i, j)); Y(i, j).fastAccessDx(j) = 1; } for (int i = 0; i < n; ++i) { M(i, x, Y, Z); for (int j = 0; j < W; ++j) c.close(Z(i).dx(j), y(i, j) - x(i, j), "misfit-gradient", 0, 1e-12); } }
template <int W> static void residual(Ctx& c) { auto& g = c.rng; int n = g.num(6), skip = g.in(0, n); double w2 = g.coin(0.2) ? 0 : g.pos(); V2 K = jk(g, n, W), C = jk(g, n, W), M = jk(g, n, W), r = jk(g, n, W), r0 = copy(r); c.begin(str("cell residual W=", W, " w2=", w2, " k=", K(0, 0))); for (int i = 0; i < n; ++i) if (i != skip) Plato::structural_dynamics_cell_residual<W>(i, w2, K, C, M, r); for (int i = 0; i < n; ++i) { D w = row(r0, i); if (i != skip) for (int j = 0; j < W; ++j) w[j] += K(i, j) + C(i, j) - w2 * M(i, j); cmp(c, row(r, i), w, i == skip ? "residual-other-cell" : "cell-residual", i == skip ? 0 : amax(row(r0, i)) + amax(row(K, i)) + amax(row(C, i)) + w2 * amax(row(M, i)), i == skip ? 0 : 1e-13); } }
VH_GROUP(damping) { for (int i = 0; i < c.n(700, 20000); ++i) { damping<1>(c); damping<2>(c); damping<3>(c); rayleigh<2>(c); rayleigh<6>(c); rayleigh<12>(c); } }
VH_GROUP(inertia) { for (int i = 0; i < c.n(700, 20000); ++i) { inertia<1>(c); inertia<2>(c); inertia<3>(c); } }
VH_GROUP(energy) { for (int i = 0; i < c.n(700, 20000); ++i) { energy<1>(c); energy<2>(c); energy<3>(c); } }
VH_GROUP(residual) { for (int i = 0; i < c.n(700, 20000); ++i) { residual<4>(c); residual<12>(c); residual<24>(c); } }
