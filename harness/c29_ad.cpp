// C29: every kernel gives the same value on automatic-differentiation types as on plain numbers, and the exact derivative.
#include "geom.hpp"
#include <Teuchos_ParameterList.hpp>
#include "SimplexFadTypes.hpp"
#include "SimplexStabilizedMechanics.hpp"
#include "SimplexThermoPlasticity.hpp"
#include "SimplexPlasticity.hpp"
#include "Kinematics.hpp"
#include "TMKinematics.hpp"
#include "EMKinematics.hpp"
#include "InterpolateFromNodal.hpp"
#include "InterpolateGradientFromScalarNodal.hpp"
#include "PressureGradient.hpp"
#include "ProjectToNode.hpp"
#include "ComplexStrain.hpp"
#include "StateValues.hpp"
#include "StrainDivergence.hpp"
#include "DotProduct.hpp"
#include "StressDivergence.hpp"
#include "FluxDivergence.hpp"
#include "PressureDivergence.hpp"
#include "ComplexStressDivergence.hpp"
#include "ComputeCauchyStress.hpp"
#include "ComputeDeviatoricStrain.hpp"
#include "ComputeDeviatoricStress.hpp"
#include "ComputeElasticWork.hpp"
#include "ComputeStabilization.hpp"
#include "DoubleDotProduct2ndOrderTensor.hpp"
#include "Eigenvalues.hpp"
#include "TensileEnergyDensity.hpp"
#include "TensorPNorm.hpp"
#include "VectorPNorm.hpp"
#include "VonMisesYieldFunction.hpp"
#include "ComputeFrequencyResponseMisfit.hpp"
#include "ThermalConductivityMaterial.hpp"
#include "ThermalMassMaterial.hpp"
#include "ThermalFlux.hpp"
#include "ThermalContent.hpp"
#include "InertialForces.hpp"
#include "RayleighDamping.hpp"
#include "ComplexRayleighDamping.hpp"
#include "ComplexElasticEnergy.hpp"
#include "ComplexInertialEnergy.hpp"
#include "ApplyWeighting.hpp"
#include "ApplyPenalty.hpp"
#include "ApplyProjection.hpp"
#include "Simp.hpp"
#include "Ramp.hpp"
#include "Heaviside.hpp"
#include "HyperbolicTangentProjection.hpp"
#include "J2PlasticityUtilities.hpp"
#include "ThermoPlasticityUtilities.hpp"
using namespace kk; using namespace gm; using PL = Teuchos::ParameterList;
using F = Sacado::Fad::SFad<double, 2>;
template <class T> using W1 = Plato::ScalarVectorT<T>; template <class T> using W2 = Plato::ScalarMultiVectorT<T>; template <class T> using W3 = Plato::ScalarArray3DT<T>;
template <class A, class B> struct Pro { using T = F; }; template <> struct Pro<double, double> { using T = double; };
static double mk(double v, double, double, double*) { return v; } static F mk(double v, double d, double e, F*) { F f(v); f.fastAccessDx(0) = d; f.fastAccessDx(1) = e; return f; }
static double val(double x) { return x; } static double val(const F& x) { return x.val(); } static double dx(double, int) { return 0; } static double dx(const F& x, int k) { return x.dx(k); }
// the inputs of one call: values with two directions each, for state-like (a) and configuration- or control-like (b) arguments
static bool gZero = false; // the group's kernels are smooth at zero
struct Tape { Rng& g; bool solid = false, zeros = false; D p; std::vector<D> v[2]; D flat[2], d0[2], d1[2]; Tape(Rng& r) : g(r) { solid = r.coin(0.15); zeros = r.coin(0.3); for (int i = 0; i < 8; ++i) p.push_back(r.uni(0.5, 2)); } };
template <class A_, class B_> struct Io { using A = A_; using B = B_; using R = typename Pro<A, B>::T; Tape& t; int n; double h; int k; bool on[2]; size_t pos[2] = {0, 0}; D out, o0, o1; // h * direction k is added to the active inputs (finite differences)
  Io(Tape& t_, int n_, double h_ = 0, int k_ = 0, bool a = true, bool b = true) : t(t_), n(n_), h(h_), k(k_) { on[0] = a; on[1] = b; }
  template <class T> T next(int w, int kind) { size_t i = pos[w]++; if (i >= t.flat[w].size()) { t.flat[w].push_back(kind == 1 ? t.g.uni(0.3, 2) : kind == 2 ? (t.solid ? 1.0 : t.g.uni(0.05, 0.95)) : kind == 3 && t.zeros && t.g.coin(0.3) ? 0.0 : t.g.sgn() * t.g.uni(0.1, 2)); t.d0[w].push_back(t.g.uni(-1, 1)); t.d1[w].push_back(t.g.coin(0.3) ? 0 : t.g.uni(-1, 1)); }
    return mk(t.flat[w][i] + (on[w] ? h * (k ? t.d1[w][i] : t.d0[w][i]) : 0), t.d0[w][i], t.d1[w][i], (T*)0); }
  template <class T> W1<T> m1(int w, int kind) { W1<T> v("v", n); for (int i = 0; i < n; ++i) v(i) = next<T>(w, kind ? kind : gZero ? 3 : 0); return v; } template <class T> W2<T> m2(int w, int m, int kind) { W2<T> v("v", n, m); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) v(i, j) = next<T>(w, kind ? kind : j > 1 || gZero ? 3 : 0); return v; }
  template <class T> W3<T> m3(int w, int m, int q) { W3<T> v("v", n, m, q); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) for (int l = 0; l < q; ++l) v(i, j, l) = next<T>(w, 3); return v; }
  W1<A> a1(int kind = 0) { return m1<A>(0, kind); } W2<A> a2(int m, int kind = 0) { return m2<A>(0, m, kind); } W3<A> a3(int m, int q) { return m3<A>(0, m, q); } W1<B> b1(int kind = 0) { return m1<B>(1, kind); } W2<B> b2(int m, int kind = 0) { return m2<B>(1, m, kind); } W3<B> b3(int m, int q) { return m3<B>(1, m, q); } A a(int kind = 0) { return next<A>(0, kind); } B b(int kind = 0) { return next<B>(1, kind); }
  W1<R> r1() { return W1<R>("o", n); } W2<R> r2(int m) { return W2<R>("o", n, m); } W3<R> r3(int m, int q) { return W3<R>("o", n, m, q); }
  template <class T> void one(const T& x) { out.push_back(val(x)); o0.push_back(dx(x, 0)); o1.push_back(dx(x, 1)); }
  template <class T> void put(const W1<T>& v) { for (size_t i = 0; i < v.extent(0); ++i) one(T(v(i))); } template <class T> void put(const W2<T>& v) { for (size_t i = 0; i < v.extent(0); ++i) for (size_t j = 0; j < v.extent(1); ++j) one(T(v(i, j))); } template <class T> void put(const W3<T>& v) { for (size_t i = 0; i < v.extent(0); ++i) for (size_t j = 0; j < v.extent(1); ++j) for (size_t l = 0; l < v.extent(2); ++l) one(T(v(i, j, l))); }
  double p(int i) const { return t.p[i]; } V1 bf(int d) { V1 v("bf", d + 1); double s = 0; for (int i = 0; i <= d; ++i) s += t.p[i]; for (int i = 0; i <= d; ++i) v(i) = t.p[i] / s; return v; } };
template <class K> static D fdiff(Tape& t, int n, int k, bool a, bool b, double h) { auto f = [&](double s) { Io<double, double> io(t, n, s, k, a, b); K::go(io); return io.out; }; D p1 = f(h), m1 = f(-h), p2 = f(2 * h), m2 = f(-2 * h), r; for (size_t i = 0; i < p1.size(); ++i) r.push_back((8 * (p1[i] - m1[i]) - (p2[i] - m2[i])) / (12 * h)); return r; }
template <class K, class A, class B> static void variant(Ctx& c, Tape& t, int n, const D& v0, const std::string& name, const char* which, bool a, bool b) {
  Io<A, B> io(t, n); K::go(io); double s = amax(v0) + 1e-3; if (!c.check(io.out.size() == v0.size(), "ad-size", name)) return; for (size_t i = 0; i < v0.size(); ++i) c.close(io.out[i], v0[i], "ad-value:" + name, s, 1e-12, which);
  for (int k = 0; k < 2; ++k) { D f = fdiff<K>(t, n, k, a, b, 2e-4), f2 = fdiff<K>(t, n, k, a, b, 5e-5); const D& got = k ? io.o1 : io.o0; double sd = amax(f) + s; for (size_t i = 0; i < f.size(); ++i) { if (!(std::fabs(f[i] - f2[i]) <= 1e-7 * sd)) continue; c.close(got[i], f[i], "ad-derivative:" + name, sd, 1e-6, str(which, " output ", i)); } } }
template <class K> static void run(Ctx& c, const std::string& name) { auto& g = c.rng; Tape t(g); int n = g.num(3); Io<double, double> io(t, n); K::go(io); c.begin(str(name, " cells=", n, " a0=", t.flat[0].empty() ? 0 : t.flat[0][0], " b0=", t.flat[1].empty() ? 0 : t.flat[1][0], " p=", t.p[0], ",", t.p[1]));
  if (!t.flat[0].empty()) variant<K, F, double>(c, t, n, io.out, name, "state", true, false); if (!t.flat[1].empty()) { variant<K, double, F>(c, t, n, io.out, name, "configuration", false, true); variant<K, F, F>(c, t, n, io.out, name, "both", true, true); } }
#define KER(N, ...) template <int d> struct N { template <class I> static void go(I& io) { const int n = io.n; (void)n; __VA_ARGS__ } };
#define EACH for (int i = 0; i < n; ++i)
// kinematics
KER(Tm, auto s = io.a2((d + 1) * (d + 1)); auto G = io.b3(d + 1, d); auto e = io.r2(nv(d)); auto q = io.r2(d); Plato::TMKinematics<d> k; EACH k(i, e, q, s, G); io.put(e); io.put(q);)
KER(Em, auto s = io.a2((d + 1) * (d + 1)); auto G = io.b3(d + 1, d); auto e = io.r2(nv(d)); auto q = io.r2(d); Plato::EMKinematics<d> k; EACH k(i, e, q, s, G); io.put(e); io.put(q);)
KER(St, auto s = io.a2((d + 1) * (d + 1)); auto G = io.b3(d + 1, d); auto e = io.r2(nv(d)); auto q = io.r2(d); Plato::StabilizedKinematics<d> k; EACH k(i, e, q, s, G); io.put(e); io.put(q);)
KER(StTm, auto s = io.a2((d + 1) * (d + 2)); auto G = io.b3(d + 1, d); auto e = io.r2(nv(d)); auto q = io.r2(d); auto t = io.r2(d); Plato::StabilizedTMKinematics<d> k; EACH k(i, e, q, t, s, G); io.put(e); io.put(q); io.put(t);)
KER(Cs, auto s = io.a2((d + 1) * 2 * d); auto G = io.b3(d + 1, d); auto e = io.r3(2, nv(d)); Plato::ComplexStrain<d, 2 * d> k; EACH k(i, s, G, e); io.put(e);)
KER(Pg, auto s = io.a2(d + 1); auto G = io.b3(d + 1, d); auto q = io.r2(d); Plato::PressureGradient<d> k(io.p(0)); EACH k(i, q, s, G); io.put(q);)
KER(Ig, auto s = io.a2((d + 1) * (d + 1)); auto G = io.b3(d + 1, d); auto q = io.r2(d); Plato::InterpolateGradientFromScalarNodal<d, d + 1, d> k; EACH k(i, G, s, q); io.put(q);)
KER(Sv, auto s = io.a2((d + 1) * d); W2<typename I::A> q("q", n, d); auto b = io.bf(d); Plato::StateValues k; EACH k(i, b, s, q); io.put(q);)
KER(In, auto s = io.a2((d + 1) * (d + 2)); auto q = io.r1(); auto r = io.r2(d); auto b = io.bf(d); Plato::InterpolateFromNodal<d, d + 2, d> k; Plato::InterpolateFromNodal<d, d + 2, 1, d> l; EACH { k(i, b, s, q); l(i, b, s, r); } io.put(q); io.put(r);)
KER(Pj, auto s = io.a2(d); auto s1 = io.a1(); auto v = io.b1(1); auto r = io.r2((d + 1) * d); auto r1 = io.r2((d + 1) * (d + 1)); auto b = io.bf(d); Plato::ProjectToNode<d> k; Plato::ProjectToNode<d, d + 1, d> l; EACH { k(i, v, b, s, r, io.p(4)); l(i, v, b, s1, r1, io.p(5)); } io.put(r); io.put(r1);)
KER(Sd, auto s = io.a2(nv(d)); auto r = io.r1(); Plato::StrainDivergence<d> k; EACH k(i, s, r); io.put(r);)
KER(Dp, auto s = io.a2(d); auto q = io.b2(d); auto r = io.r1(); Plato::DotProduct<d> k; EACH k(i, s, q, r); io.put(r);)
// internal forces
KER(Dv, auto s = io.a2(nv(d)); auto q = io.a2(d); auto p = io.a1(); auto G = io.b3(d + 1, d); auto v = io.b1(1); auto r = io.r2((d + 1) * (d + 1)); auto r2 = io.r2((d + 1) * (d + 1)); auto r3 = io.r2((d + 1) * (d + 1)); Plato::StressDivergence<d, d + 1> k; Plato::FluxDivergence<d, d + 1, d> f; Plato::PressureDivergence<d, d + 1> h; EACH { k(i, r, s, G, v, io.p(0)); f(i, r2, q, G, v, io.p(1)); h(i, r3, p, G, v, io.p(2)); } io.put(r); io.put(r2); io.put(r3);)
KER(Cd, auto s = io.a3(2, nv(d)); auto G = io.b3(d + 1, d); auto v = io.b1(1); auto r = io.r2((d + 1) * 2 * d); Plato::ComplexStressDivergence<d, 2 * d> k; EACH k(i, v, G, s, r); io.put(r);)
// measures
constexpr int pw(int d) { return d == 3 ? 6 : d == 2 ? 4 : 1; }
KER(Vm, auto s = io.a2(nv(d)); auto r = io.r1(); Plato::VonMisesYieldFunction<d> k; EACH k(i, s, r); io.put(r);)
KER(Eg, auto s = io.a2(nv(d)); W2<typename I::A> r("e", n, d); Plato::Eigenvalues<d> k(25); EACH k(i, s, r, true); io.put(r);)
KER(Sl, auto e = io.a2(pw(d)); auto G = io.b(1); auto K = io.b(1); W2<typename I::A> dv("dv", n, pw(d)); auto ds = io.r2(pw(d)); auto cs = io.r2(pw(d)); auto w = io.r1(); Plato::ComputeDeviatoricStrain<d> fd; Plato::ComputeDeviatoricStress<d> fs; Plato::ComputeCauchyStress<d> fc; Plato::ComputeElasticWork<d> fw; EACH { fd(i, e, dv); fs(i, G, e, ds); fc(i, K, G, e, cs); fw(i, G, K, e, dv, w); } io.put(dv); io.put(ds); io.put(cs); io.put(w);)
KER(Dd, auto e = io.a2(pw(d)); auto f = io.b2(pw(d)); auto r = io.r1(); Plato::DoubleDotProduct2ndOrderTensor<d> k; EACH k(i, e, f, r); io.put(r);)
KER(Sb, auto p = io.a2(d); auto q = io.a2(d); auto v = io.b1(1); auto r = io.r2(d); Plato::ComputeStabilization<d> k(io.p(0), io.p(1)); EACH k(i, v, p, q, r); io.put(r);)
KER(Te, auto e = io.a2(d); auto r = io.r1(); Plato::TensileEnergyDensity<d> k; EACH k(i, e, io.p(0), io.p(1), r); io.put(r);)
KER(Pn, auto s = io.a2(nv(d)); auto v = io.b1(1); auto u = io.a2(d); PL pl; PL& q = pl.sublist("Normalize").sublist("Scalar"); q.set("Reference Weight", io.p(1)); q.set("Scalar Product Weight", io.p(2)); Plato::TensorPNormFunctor<nv(d)> k(pl); Plato::WeightedNormFunctor<nv(d)> w(pl); Plato::VectorPNorm<d> vn; auto r = io.r1(); auto r2 = io.r1(); auto r3 = io.r1(); double p = 1 + 3 * io.p(0); EACH { k(i, r, s, p, v); w(i, r2, s, p, v); vn(i, r3, u, 4, v); } io.put(r); io.put(r2); io.put(r3);)
KER(Bn, auto s = io.a2(nv(d)); auto v = io.b1(1); PL pl; PL& q = pl.sublist("Normalize").sublist("Barlat"); q.set("Reference Weight", io.p(1)); q.set("Barlat Exponent", 8); for (int i = 0; i < 6; ++i) for (int w = 1; w < 3; ++w) { Teuchos::Array<double> a(6, 0.0); for (int j = 0; j < 3; ++j) if (i < 3) a[j] = 0.1 * std::sin(7.0 * io.p(j) + i + w); a[i] += 0.5 + 0.5 * io.p((i + w) % 8); q.set(str("T", w, i), a); } Plato::BarlatNormFunctor<nv(d)> k(pl); auto r = io.r1(); EACH k(i, r, s, 2.0, v); io.put(r);)
// materials
template <int d, bool NL> struct Tf { template <class I> static void go(I& io) { const int n = io.n; PL top; PL& l = top.sublist("Material Models").sublist("steel"); PL& p = l.sublist("Thermal Conduction"); p.set("Temperature Dependent", NL); PL& k = p.sublist("Thermal Conductivity"); for (int o = 0; o < (NL ? 3 : 1); ++o) { std::string c = NL ? str("c", o) : "c"; k.set(c + "11", io.p(o)); if (d > 1) { k.set(c + "22", io.p(o + 1)); k.set(c + "12", 0.3 * io.p(o + 2)); } if (d > 2) { k.set(c + "33", io.p(o + 3)); k.set(c + "23", 0.2 * io.p(o + 4)); k.set(c + "13", 0.1 * io.p(o + 5)); } }
  PL& m = l.sublist("Thermal Mass"); m.set("Temperature Dependent", NL); if (NL) { for (const char* q : {"Mass Density", "Specific Heat"}) { PL& s = m.sublist(q); double f = q[0] == 'M' ? 1 : 2; s.set("c0", f * io.p(0)); s.set("c1", io.p(1) / f); s.set("c2", f * io.p(2)); } } else { m.set("Mass Density", io.p(0)); m.set("Specific Heat", io.p(1)); }
  auto g = io.a2(d); auto rt = io.a1(); auto T = io.b1(); Plato::ThermalConductionModelFactory<d> fc(top); Plato::ThermalMassModelFactory<d> fm(top); Plato::ThermalFlux<d> fl(fc.create("steel")); Plato::ThermalContent<d> tc(fm.create("steel")); auto q = io.r2(d); auto o = io.r1(); EACH { fl(i, q, g, T); tc(i, o, rt, T); } io.put(q); io.put(o);
  if (!NL) { auto q2 = io.r2(d); auto o2 = io.r1(); EACH { fl(i, q2, g); tc(i, o2, rt); } io.put(q2); io.put(o2); } } };
// dynamics
KER(If, auto v = io.b1(1); auto s = io.a2(d); auto b = io.bf(d); auto r = io.r2((d + 1) * d); Plato::InertialForces k(io.p(0)); EACH k(i, v, b, s, r); io.put(r);)
KER(Rd, auto s = io.a2((d + 1) * d); auto q = io.b2((d + 1) * d); auto r = io.r2((d + 1) * d); Plato::RayleighDamping<(d + 1) * d> k(io.p(0), io.p(1)); EACH k(i, s, q, r); io.put(r);)
KER(Ce, auto s = io.a3(2, nv(d)); auto q = io.b3(2, nv(d)); auto r = io.r1(); Plato::ComplexElasticEnergy<nv(d)> k; EACH k(i, s, q, r); io.put(r);)
KER(Ie, auto v = io.b1(1); auto s = io.a2(2 * d); auto r = io.r1(); Plato::ComplexInertialEnergy<d> k(io.p(0), io.p(1)); EACH k(i, v, s, r); io.put(r);)
KER(Cr, auto s = io.a2((d + 1) * 2 * d); auto q = io.b2((d + 1) * 2 * d); auto r = io.r2((d + 1) * 2 * d); Plato::ComplexRayleighDamping<d> k(io.p(0), io.p(1)); EACH k(i, s, q, r); io.put(r);)
KER(Mf, auto q = io.a2((d + 1) * 2 * d); V2 s("s", n, (d + 1) * 2 * d); EACH for (int j = 0; j < (d + 1) * 2 * d; ++j) s(i, j) = io.p(j % 8) - 1; auto r = io.r1(); Plato::ComputeFrequencyResponseMisfit<d> k; EACH k(i, s, q, r); io.put(r);)
// penalties
template <class P, int d> struct Wt { template <class I> static void go(I& io) { const int n = io.n; PL q; q.set("Exponent", 1 + 2 * io.p(0)); q.set("Minimum Value", 0.1 * io.p(1)); q.set("Regularization Length", 2.0); P p(q); Plato::ApplyWeighting<d, nv(d), P> k(p); Plato::ApplyWeighting<d, 1, P> k1(p); auto s = io.a2(nv(d)); auto t = io.a1(); auto z = io.b2(d + 1, 2); auto r = io.r2(nv(d)); auto r1 = io.r1(); EACH { k(i, s, r, z); k1(i, t, r1, z); } io.put(r); io.put(r1); } };
KER(Ht, auto z = io.a2(d + 1, 2); Plato::HyperbolicTangentProjection f(3 * io.p(0), 0.3 * io.p(1)); Plato::ApplyProjection<Plato::HyperbolicTangentProjection> k(f); auto r = io.r1(); EACH r(i) = k(i, z); io.put(r);)
// plasticity
KER(J2, const int w = pw(d), o = 2 + pw(d); auto s = io.a2(w); auto x = io.b2(o + w); auto y = io.b2(o + w); auto nn = io.r2(w); auto nm = io.r1(); W2<typename I::R> sr("s", n, w); EACH for (int j = 0; j < w; ++j) sr(i, j) = s(i, j); auto r = io.r2(o + w); auto r2 = io.r2(o + w); auto ms = io.r2(w); Plato::J2PlasticityUtilities<d> k; auto H = io.b(1); EACH { k.computeDeviatoricStressMinusBackstressNormalized(i, sr, x, nn, nm); k.fillPlasticStrainTensorResidualPlasticStep(i, x, y, nn, r); k.fillBackstressTensorResidualPlasticStep(i, H, x, y, nn, r); k.fillPlasticStrainTensorResidualElasticStep(i, x, y, r2); k.fillBackstressTensorResidualElasticStep(i, x, y, r2); k.computePlasticStrainMisfit(i, x, y, ms); } io.put(nn); io.put(nm); io.put(r); io.put(r2); io.put(ms);)
template <int d, class P> struct Es { template <class I> static void go(I& io) { const int n = io.n; auto u = io.a2((d + 1) * P::mNumDofsPerNode); auto st = io.b2(2 + 2 * pw(d)); W2<typename I::R> e("e", n, pw(d)); { auto ea = io.a2(pw(d)); auto eb = io.b2(pw(d)); EACH for (int j = 0; j < pw(d); ++j) e(i, j) = ea(i, j) * eb(i, j); } auto o = io.r2(pw(d)); auto b = io.bf(d); Plato::ThermoPlasticityUtilities<d, P> k(io.p(5), io.p(6), io.p(7)); EACH k.computeElasticStrain(i, u, st, b, e, o); io.put(o); } };
template <int d> static void kin(Ctx& c) { run<Tm<d>>(c, "thermomechanical kinematics"); run<Em<d>>(c, "electromechanical kinematics"); run<St<d>>(c, "stabilized kinematics"); run<StTm<d>>(c, "stabilized thermomechanical kinematics"); run<Cs<d>>(c, "complex strain"); run<Pg<d>>(c, "pressure gradient"); run<Ig<d>>(c, "interpolated gradient"); run<Sv<d>>(c, "state values"); run<In<d>>(c, "interpolation"); run<Pj<d>>(c, "projection to nodes"); run<Sd<d>>(c, "strain divergence"); run<Dp<d>>(c, "dot product"); }
template <int d> static void frc(Ctx& c) { run<Dv<d>>(c, "divergence"); run<Cd<d>>(c, "complex stress divergence"); run<Rd<d>>(c, "Rayleigh damping"); run<Ce<d>>(c, "complex elastic energy"); run<If<d>>(c, "inertial forces"); run<Ie<d>>(c, "complex inertial energy"); run<Cr<d>>(c, "complex Rayleigh damping"); run<Mf<d>>(c, "frequency response misfit"); }
template <int d> static void mea(Ctx& c) { run<Vm<d>>(c, "von Mises"); run<Eg<d>>(c, "eigenvalues"); run<Sl<d>>(c, "volumetric-deviatoric split"); run<Dd<d>>(c, "double dot"); run<Sb<d>>(c, "stabilization"); run<Te<d>>(c, "tensile energy"); run<Pn<d>>(c, "p-norms"); run<Bn<d>>(c, "Barlat norm"); }
template <int d> static void pen(Ctx& c) { run<Wt<Plato::MSIMP, d>>(c, "SIMP weighting"); run<Wt<Plato::RAMP, d>>(c, "RAMP weighting"); run<Wt<Plato::Heaviside, d>>(c, "Heaviside weighting"); run<Ht<d>>(c, "tangent projection"); }
VH_GROUP(kinematics) { gZero = true; for (int i = 0; i < c.n(16, 800); ++i) { kin<1>(c); kin<2>(c); kin<3>(c); } }
VH_GROUP(forces) { gZero = true; for (int i = 0; i < c.n(24, 1200); ++i) { frc<1>(c); frc<2>(c); frc<3>(c); } }
VH_GROUP(measures) { gZero = false; for (int i = 0; i < c.n(40, 2000); ++i) { mea<1>(c); mea<2>(c); mea<3>(c); } }
VH_GROUP(materials) { gZero = true; for (int i = 0; i < c.n(20, 800); ++i) { run<Tf<1, true>>(c, "temperature-dependent thermal laws"); run<Tf<2, true>>(c, "temperature-dependent thermal laws"); run<Tf<3, true>>(c, "temperature-dependent thermal laws"); run<Tf<1, false>>(c, "linear thermal laws"); run<Tf<2, false>>(c, "linear thermal laws"); run<Tf<3, false>>(c, "linear thermal laws"); } }
VH_GROUP(penalties) { gZero = false; for (int i = 0; i < c.n(50, 2500); ++i) { pen<1>(c); pen<2>(c); pen<3>(c); } }
VH_GROUP(plasticity) { gZero = false; for (int i = 0; i < c.n(60, 3000); ++i) { run<J2<2>>(c, "J2 plane"); run<J2<3>>(c, "J2 solid"); run<Es<2, Plato::SimplexThermoPlasticity<2>>>(c, "elastic strain"); run<Es<3, Plato::SimplexThermoPlasticity<3>>>(c, "elastic strain"); run<Es<2, Plato::SimplexPlasticity<2>>>(c, "elastic strain"); run<Es<3, Plato::SimplexPlasticity<3>>>(c, "elastic strain"); } }
