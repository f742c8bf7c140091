// C05: J2 plasticity state updates, their residuals, the yield-surface normal and the elastic part of the strain.
#include "geom.hpp"
#include "J2PlasticityUtilities.hpp"
#include "ThermoPlasticityUtilities.hpp"
#include "SimplexFadTypes.hpp"
using namespace kk; using namespace gm;
// local state: accumulated plastic strain, multiplier increment, plastic strain (engineering shear), backstress
template <int d> struct L { static const int T = d == 2 ? 4 : 6, N = 2 + 2 * T; static bool shear(int i) { return d == 2 ? i == 2 : i >= 3; } };
static V2 jk(Rng& g, int n, int w, double s = 1) { V2 v("junk", n, w); for (int i = 0; i < n; ++i) for (int j = 0; j < w; ++j) v(i, j) = s * g.real(); return v; }
static V2 copy(const V2& v) { V2 w("copy", v.extent(0), v.extent(1)); for (size_t i = 0; i < v.extent(0); ++i) for (size_t j = 0; j < v.extent(1); ++j) w(i, j) = v(i, j); return w; }
template <int d> static D normal(const V2& s, const V2& st, int i, double& nrm) { D n; nrm = 0; for (int j = 0; j < L<d>::T; ++j) { n.push_back(s(i, j) - st(i, 2 + L<d>::T + j)); nrm += (L<d>::shear(j) ? 2 : 1) * n[j] * n[j]; } nrm = std::sqrt(nrm); for (auto& x : n) x /= nrm; return n; }
template <int d> static void step(Ctx& c) { auto& g = c.rng; const int n = g.num(6), T = L<d>::T, N = L<d>::N; double ss = std::pow(10, g.uni(-3, 3)); V2 prev = jk(g, n, N), loc = jk(g, n, N), s = jk(g, n, T, ss); bool dev = g.coin(0.7);
  auto trace = [&](const V2& v, int i, int o) { return d == 2 ? v(i, o) + v(i, o + 1) + v(i, o + 3) : v(i, o) + v(i, o + 1) + v(i, o + 2); };
  if (dev) for (int i = 0; i < n; ++i) { s(i, d == 2 ? 3 : 2) -= trace(s, i, 0); loc(i, d == 2 ? 9 : 10) -= trace(loc, i, 2 + T); }
  double Hk = g.coin(0.2) ? 0.0 : g.pos(); Plato::J2PlasticityUtilities<d> k; V2 nn = jk(g, n, T); V1 nm = mk1(rnd(g, n)); c.begin(str("step d=", d, " cells=", n, " Hk=", Hk, " dev=", dev, " dg=", loc(0, 1), " s=", s(0, 0)));
  D s0 = get(s), p0 = get(prev), l0 = get(loc); std::vector<D> N0; for (int i = 0; i < n; ++i) { double q; N0.push_back(normal<d>(s, loc, i, q)); }
  int skip = g.in(0, n); // this cell is left alone
  D nn0 = skip < n ? row(nn, skip) : D(); for (int i = n - 1; i >= 0; --i) if (i != skip) k.computeDeviatoricStressMinusBackstressNormalized(i, s, loc, nn, nm);
  same(c, get(s), s0, "normal-input-stress"); same(c, get(loc), l0, "normal-input-state"); if (skip < n) same(c, row(nn, skip), nn0, "normal-other-cell");
  for (int i = 0; i < n; ++i) { if (i == skip) { for (int j = 0; j < T; ++j) nn(i, j) = N0[i][j]; continue; } double q, un = 0; D w = normal<d>(s, loc, i, q); double sc = amax(row(s, i)) + amax(row(loc, i)); c.close(nm(i), q, "relative-stress-norm", sc, 1e-12); cmp(c, row(nn, i), w, "yield-normal", sc / q, 1e-11); for (int j = 0; j < T; ++j) un += (L<d>::shear(j) ? 2 : 1) * nn(i, j) * nn(i, j); c.close(un, 1, "yield-normal-unit", 1, 1e-11); if (dev) c.check(std::fabs(trace(nn, i, 0)) <= 1e-10 * (1 + sc / q), "yield-normal-deviatoric", str(trace(nn, i, 0))); }
  D n0 = get(nn); V2 pl = copy(loc), el = copy(loc); for (int i = 0; i < n; ++i) if (i != skip) { k.updatePlasticStrainAndBackstressPlasticStep(i, prev, nn, Hk, pl); k.updatePlasticStrainAndBackstressElasticStep(i, prev, el); }
  same(c, get(prev), p0, "update-input-previous"); same(c, get(nn), n0, "update-input-normal");
  for (int i = 0; i < n; ++i) { D wp = row(loc, i), we = row(loc, i); double dg = loc(i, 1), mag = amax(row(prev, i)) + std::fabs(dg) * (1 + Hk) * 2; if (i != skip) for (int j = 0; j < T; ++j) { wp[2 + j] = prev(i, 2 + j) + std::sqrt(1.5) * dg * nn(i, j) * (L<d>::shear(j) ? 2 : 1); wp[2 + T + j] = prev(i, 2 + T + j) + std::sqrt(2. / 3) * dg * Hk * nn(i, j); we[2 + j] = prev(i, 2 + j); we[2 + T + j] = prev(i, 2 + T + j); }
    cmp(c, row(pl, i), wp, i == skip ? "plastic-update-other-cell" : "plastic-update", i == skip ? 0 : mag, i == skip ? 0 : 1e-11); cmp(c, row(el, i), we, i == skip ? "elastic-update-other-cell" : "elastic-update", 0, 0);
    if (i != skip && dev) { c.check(std::fabs((trace(pl, i, 2) - trace(prev, i, 2))) <= 1e-9 * mag, "plastic-flow-isochoric", str(trace(pl, i, 2), " ", trace(prev, i, 2)));
      double inc = 0; for (int j = 0; j < T; ++j) { double e = pl(i, 2 + j) - prev(i, 2 + j); inc += (L<d>::shear(j) ? 0.5 : 1) * e * e; } c.close(std::sqrt(inc * 2 / 3), std::fabs(dg), "plastic-strain-increment-equals-multiplier", mag, 1e-10); } }
  // the residual fills measure exactly the distance to those updates, and the updates zero them
  V2 z = jk(g, n, N), zb = copy(z); for (int i = 0; i < n; ++i) if (i != skip) { k.fillPlasticStrainTensorResidualPlasticStep(i, loc, prev, nn, z); k.fillBackstressTensorResidualPlasticStep(i, Hk, loc, prev, nn, z); }
  V2 ze = copy(zb); for (int i = 0; i < n; ++i) if (i != skip) { k.fillPlasticStrainTensorResidualElasticStep(i, loc, prev, ze); k.fillBackstressTensorResidualElasticStep(i, loc, prev, ze); }
  V2 zz = copy(zb); for (int i = 0; i < n; ++i) if (i != skip) { k.fillPlasticStrainTensorResidualPlasticStep(i, pl, prev, nn, zz); k.fillBackstressTensorResidualPlasticStep(i, Hk, pl, prev, nn, zz); }
  for (int i = 0; i < n; ++i) { double mag = amax(row(prev, i)) + amax(row(loc, i)) * (1 + Hk) * 2; D w = row(zb, i), we = w, w0 = w; if (i != skip) for (int j = 2; j < N; ++j) { w[j] = loc(i, j) - pl(i, j); we[j] = loc(i, j) - prev(i, j); w0[j] = 0; }
    cmp(c, row(z, i), w, i == skip ? "plastic-residual-other-cell" : "plastic-residual", i == skip ? 0 : mag, i == skip ? 0 : 1e-11); cmp(c, row(ze, i), we, i == skip ? "elastic-residual-other-cell" : "elastic-residual", i == skip ? 0 : mag, i == skip ? 0 : 1e-12); if (i != skip) cmp(c, row(zz, i), w0, "update-zeroes-residual", mag, 1e-11); }
  // readers
  V1 ap = mk1(rnd(g, n)), pm = mk1(rnd(g, n)); V2 ps = jk(g, n, T), bs = jk(g, n, T), mf = jk(g, n, T), ps0 = copy(ps), bs0 = copy(bs), mf0 = copy(mf); double ap0 = skip < n ? ap(skip) : 0;
  for (int i = 0; i < n; ++i) if (i != skip) { k.getAccumulatedPlasticStrain(i, loc, ap); k.getPlasticMultiplierIncrement(i, loc, pm); k.getPlasticStrainTensor(i, loc, ps); k.getBackstressTensor(i, loc, bs); k.computePlasticStrainMisfit(i, loc, prev, mf); }
  for (int i = 0; i < n; ++i) if (i != skip) { c.check(ap(i) == loc(i, 0), "get-accumulated-plastic-strain"); c.check(pm(i) == loc(i, 1), "get-multiplier"); for (int j = 0; j < T; ++j) { c.check(ps(i, j) == loc(i, 2 + j), "get-plastic-strain"); c.check(bs(i, j) == loc(i, 2 + T + j), "get-backstress"); c.close(mf(i, j), loc(i, 2 + j) - prev(i, 2 + j), "plastic-strain-misfit", 0, 1e-14); } }
    else { c.check(ap(i) == ap0, "get-other-cell"); cmp(c, row(ps, i), row(ps0, i), "get-other-cell", 0, 0); cmp(c, row(bs, i), row(bs0, i), "get-other-cell", 0, 0); cmp(c, row(mf, i), row(mf0, i), "get-other-cell", 0, 0); } }
// the derivative of the residuals with respect to the state is carried along (automatic differentiation)
template <int d> static void ad(Ctx& c) { auto& g = c.rng; const int T = L<d>::T, N = L<d>::N; using F = Sacado::Fad::SFad<double, N>; V2 x = jk(g, 1, N), prev = jk(g, 1, N), s = jk(g, 1, T); double Hk = g.pos(); c.begin(str("ad d=", d, " Hk=", Hk, " dg=", x(0, 1))); Plato::J2PlasticityUtilities<d> k;
  Plato::ScalarMultiVectorT<F> X("X", 1, N), S("S", 1, T), NN("n", 1, T), R("R", 1, N); Plato::ScalarVectorT<F> M("m", 1); for (int j = 0; j < N; ++j) X(0, j) = F(N, j, x(0, j)); for (int j = 0; j < T; ++j) S(0, j) = s(0, j);
  k.computeDeviatoricStressMinusBackstressNormalized(0, S, X, NN, M); k.fillPlasticStrainTensorResidualPlasticStep(0, X, prev, NN, R); F H = Hk; k.fillBackstressTensorResidualPlasticStep(0, H, X, prev, NN, R);
  auto ev = [&](const V2& y) { V2 nn("n", 1, T), r("r", 1, N); V1 m("m", 1); k.computeDeviatoricStressMinusBackstressNormalized(0, s, y, nn, m); k.fillPlasticStrainTensorResidualPlasticStep(0, y, prev, nn, r); k.fillBackstressTensorResidualPlasticStep(0, Hk, y, prev, nn, r); return row(r, 0); };
  double q; normal<d>(s, x, 0, q); D dir = kk::uni(g, N); double h = 1e-5 * std::min(1.0, q); V2 a = copy(x), b = copy(x); for (int j = 0; j < N; ++j) { a(0, j) += h * dir[j]; b(0, j) -= h * dir[j]; } D ra = ev(a), rb = ev(b); double mag = (amax(row(x, 0)) + 1) * (1 + Hk) * 4 * (1 + 1 / q) + amax(row(prev, 0));
  for (int i = 2; i < N; ++i) { double t = 0; for (int j = 0; j < N; ++j) t += R(0, i).dx(j) * dir[j]; c.close(t, (ra[i] - rb[i]) / (2 * h), "residual-derivative", mag * (1 + 1e-10 / h), 3e-6); } }
template <int d, class P> static void elastic(Ctx& c, bool thermo) { auto& g = c.rng; const int n = g.num(6), T = L<d>::T, nd = P::mNumDofsPerNode; V2 st = jk(g, n, L<d>::N), u = jk(g, n, (d + 1) * nd), e = jk(g, n, T), o = jk(g, n, T), o0 = copy(o); V1 bf = mk1(kk::uni(g, d + 1, 0, 1)); double al = g.uni(0, 1e-2), tr = g.real(), sc = g.pos();
  c.begin(str("elastic strain d=", d, " thermo=", thermo, " cells=", n, " alpha=", al, " Tref=", tr, " scale=", sc, " e=", e(0, 0))); bool dflt = g.coin(0.2); Plato::ThermoPlasticityUtilities<d, P> k = dflt ? Plato::ThermoPlasticityUtilities<d, P>() : Plato::ThermoPlasticityUtilities<d, P>(al, tr, sc); if (dflt) { al = 0; tr = 0; sc = 1; } int skip = g.in(0, n); D e0 = get(e), s0 = get(st), u0 = get(u);
  for (int i = 0; i < n; ++i) if (i != skip) k.computeElasticStrain(i, u, st, bf, e, o); same(c, get(e), e0, "elastic-input"); same(c, get(st), s0, "elastic-input"); same(c, get(u), u0, "elastic-input");
  for (int i = 0; i < n; ++i) { if (i == skip) { cmp(c, row(o, i), row(o0, i), "elastic-other-cell", 0, 0); continue; } double t = 0, ta = 0; if (thermo) for (int a = 0; a <= d; ++a) { t += bf(a) * u(i, a * nd + d); ta += std::fabs(bf(a) * u(i, a * nd + d)); } double th = thermo ? al * (t * sc - tr) : 0, mag = amax(row(e, i)) + amax(row(st, i)) + al * (ta * sc + std::fabs(tr)); D w; for (int j = 0; j < T; ++j) w.push_back(e(i, j) - st(i, 2 + j) - (L<d>::shear(j) ? 0 : th)); cmp(c, row(o, i), w, thermo ? "thermo-elastic-strain" : "elastic-strain", mag, 1e-12); } }
VH_GROUP(plane) { for (int i = 0; i < c.n(1500, 40000); ++i) step<2>(c); }
VH_GROUP(solid) { for (int i = 0; i < c.n(1500, 40000); ++i) step<3>(c); }
VH_GROUP(derivatives) { for (int i = 0; i < c.n(500, 10000); ++i) { ad<2>(c); ad<3>(c); } }
VH_GROUP(elastic_strain) { for (int i = 0; i < c.n(1000, 30000); ++i) { elastic<2, Plato::SimplexPlasticity<2>>(c, false); elastic<3, Plato::SimplexPlasticity<3>>(c, false); elastic<2, Plato::SimplexThermoPlasticity<2>>(c, true); elastic<3, Plato::SimplexThermoPlasticity<3>>(c, true); } }
