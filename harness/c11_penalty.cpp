// C11: penalty and projection models interpolate between void and solid, are monotone, respect continuation bounds, and are applied to the right cells.
#include "geom.hpp"
#include <iostream>
#include "AnalyzeMacros.hpp"
#include "Simp.hpp"
#include "Ramp.hpp"
#include "Heaviside.hpp"
#include "NoPenalty.hpp"
#include "ApplyPenalty.hpp"
#include "ApplyProjection.hpp"
#include "ApplyWeighting.hpp"
#include "HeavisideProjection.hpp"
#include "HyperbolicTangentProjection.hpp"
#include "Plato_TopOptFunctors.hpp"
#include "SimplexFadTypes.hpp"
using namespace kk; using namespace gm;
using F1 = Sacado::Fad::SFad<double, 1>;
struct Mute { std::streambuf* b; std::ostringstream o; Mute() { b = std::cout.rdbuf(o.rdbuf()); } ~Mute() { std::cout.rdbuf(b); } };
template <class P> static double ev(const P& p, double x) { return p(x); }
static double simp(double x, double p, double m) { return m + (1 - m) * std::pow(x, p); }
static double ramp(double x, double p, double m) { return m + (1 - m) * x / (1 + p * (1 - x)); }
static double heav(double x, double p, double r, double m) { return x <= -r ? m : x >= r ? 1 : m + (1 - m) * std::pow(0.5 * (1 + std::sin(M_PI * x / (2 * r))), p); }
// shared laws of a penalty function on [lo,hi] with reference f
template <class P, class R> static void laws(Ctx& c, const P& p, R f, double lo, double hi, double m, const std::string& k, double kink = 1e300) { auto& g = c.rng; double last = -1e300, lx = 0; std::vector<double> xs{lo, hi}; for (int i = 0; i < 12; ++i) xs.push_back(g.uni(lo, hi)); std::sort(xs.begin(), xs.end());
  for (double x : xs) { double y = ev(p, x); c.close(y, f(x), k + "-value", 1, 1e-12, str("x=", x)); c.check(y >= last - 1e-13, k + "-monotone", str("f(", lx, ")=", last, " f(", x, ")=", y)); c.check(y >= m - 1e-13 && y <= 1 + 1e-13, k + "-bounded", str(y)); last = y; lx = x;
    double h = 1e-6 * (hi - lo); if (x > lo + 1e-2 * (hi - lo) && x < hi - 1e-2 * (hi - lo) && std::fabs(std::fabs(x) - kink) > 1e-3 * (hi - lo)) { F1 X(1, 0, x); F1 Y = p(X); c.close(Y.val(), y, k + "-ad-value", 1, 1e-13); double fd = (f(x + h) - f(x - h)) / (2 * h); c.close(Y.dx(0), fd, k + "-derivative", 1 / (hi - lo) + std::fabs(fd), 2e-5, str("x=", x)); } }
  c.close(ev(p, hi), 1, k + "-solid", 0, 1e-12); c.close(ev(p, lo), m, k + "-void", 1e-3, 1e-12); }
static void tsimp(Ctx& c) { auto& g = c.rng; Mute mu; double p = g.uni(1, 6), m = g.coin(0.2) ? 0 : std::pow(10, g.uni(-9, -1)), ub = g.uni(1, 8), ac = g.uni(0, 1); int how = g.in(0, 3); c.begin(str("simp ", how, " ", p, " ", m, " ", ub, " ", ac)); Teuchos::ParameterList L; bool he = g.coin(0.7), hm = g.coin(0.7), hu = g.coin(0.7), ha = g.coin(0.7);
  if (he) L.set("Exponent", p); if (hm) L.set("Minimum Value", m); if (hu) L.set("Penalty Exponent Upper Bound", ub); if (ha) L.set("Additive Continuation", ac); std::map<std::string, double> M; if (he) M["Exponent"] = p; if (hm) M["Minimum Value"] = m; if (ha) M["Additive Continuation"] = ac;
  Plato::MSIMP a(p, m), b(L); double pe = p, me = m, ue = 3, ae = 0.1; Plato::MSIMP& s = how == 1 ? b : a; if (how == 1) { pe = he ? p : 3; me = hm ? m : 1e-9; ue = hu ? ub : 3; ae = ha ? ac : 0.1; }
  if (how == 2) { a.setParameters(M); pe = he ? p : 3; me = hm ? m : 1e-9; ae = ha ? ac : 0.1; } if (how == 3) { pe = g.uni(1, 6); me = g.uni(0, 0.1); ae = g.uni(0, 2); a.setPenalty(pe); a.setMinimumErsatzMaterial(me); a.setAdditiveContinuationValue(ae); }
  for (int k = 0; k < 5; ++k) { laws(c, s, [&](double x) { return simp(x, pe, me); }, 0, 1, me, k ? "simp-continued" : "simp"); s.update(); pe = std::min(ue, pe + ae); } }
static void tramp(Ctx& c) { auto& g = c.rng; Mute mu; double p = g.uni(0, 9), m = g.coin(0.2) ? 0 : std::pow(10, g.uni(-9, -1)), ub = g.uni(1, 12), ac = g.uni(0, 1); int how = g.in(0, 2); c.begin(str("ramp ", how, " ", p, " ", m, " ", ub, " ", ac)); Teuchos::ParameterList L; bool he = g.coin(0.7), hm = g.coin(0.7), hu = g.coin(0.7), ha = g.coin(0.7);
  if (he) L.set("Exponent", p); if (hm) L.set("Minimum Value", m); if (hu) L.set("Penalty Exponent Upper Bound", ub); if (ha) L.set("Additive Continuation", ac); std::map<std::string, double> M; if (he) M["Exponent"] = p; if (hm) M["Minimum Value"] = m; if (ha) M["Additive Continuation"] = ac;
  Plato::RAMP a, b(L); double pe = 3, me = 0, ue = 3, ae = 0.1; Plato::RAMP& s = how == 1 ? b : a; if (how == 1) { pe = he ? p : 3; me = hm ? m : 0; ue = hu ? ub : 3; ae = ha ? ac : 0.1; } if (how == 2) { a.setParameters(M); pe = he ? p : 3; me = hm ? m : 1e-9; ae = ha ? ac : 0.1; }
  for (int k = 0; k < 5; ++k) { laws(c, s, [&](double x) { return ramp(x, pe, me); }, 0, 1, me, k ? "ramp-continued" : "ramp"); s.update(); pe = std::min(ue, pe + ae); } }
static void theav(Ctx& c) { auto& g = c.rng; Mute mu; double p = g.uni(1, 5), r = std::pow(10, g.uni(-2, 2)), m = g.coin(0.2) ? 0 : std::pow(10, g.uni(-9, -1)), ub = g.uni(1, 8), ac = g.uni(0, 1); int how = g.in(0, 2); c.begin(str("heaviside ", how, " ", p, " ", r, " ", m, " ", ub, " ", ac)); Teuchos::ParameterList L; bool he = g.coin(0.7), hm = g.coin(0.7), hu = g.coin(0.7), ha = g.coin(0.7), hr = g.coin(0.7);
  if (he) L.set("Exponent", p); if (hm) L.set("Minimum Value", m); if (hu) L.set("Penalty Exponent Upper Bound", ub); if (ha) L.set("Additive Continuation", ac); if (hr) L.set("Regularization Length", r); std::map<std::string, double> M; if (he) M["Exponent"] = p; if (hm) M["Minimum Value"] = m; if (ha) M["Additive Continuation"] = ac; if (hr) M["Regularization Length"] = r;
  bool other = how == 2; Plato::Heaviside a(other ? p + 1 : p, other ? r + 0.5 : r, other ? m + 0.05 : m), b(L); double pe = p, re = r, me = m, ue = 3, ae = 0.1; Plato::Heaviside& s = how == 1 ? b : a; if (how == 1) { pe = he ? p : 1; re = hr ? r : 1; me = hm ? m : 0; ue = hu ? ub : 1; ae = ha ? ac : 0.1; } if (how == 2) { a.setParameters(M); pe = he ? p : 1; re = hr ? r : 1; me = hm ? m : 1e-9; ae = ha ? ac : 0.1; }
  for (int k = 0; k < 5; ++k) { laws(c, s, [&](double x) { return heav(x, pe, re, me); }, -1.5 * re, 1.5 * re, me, k ? "heaviside-continued" : "heaviside", re); s.update(); pe = std::min(ue, pe + ae); } }
static void tproj(Ctx& c) { auto& g = c.rng; double be = g.uni(0.5, 40), et = g.uni(0.05, 0.95); int how = g.in(0, 5); c.begin(str("projection ", how, " ", be, " ", et)); Teuchos::ParameterList L; bool hb = g.coin(), he = g.coin(); if (hb) L.set("Beta", be); if (he) L.set("Eta", et); double b2 = g.uni(0.5, 40), e2 = g.uni(0.05, 0.95);
  Plato::HyperbolicTangentProjection A(be, et), B(L), C; double b = be, e = et; auto* s = &A; if (how == 1) { s = &B; b = hb ? be : 10; e = he ? et : 0.5; } if (how == 2) { s = &C; b = 10; e = 0.5; } if (how == 3) { A.setCurvatureParameterBeta(b2); b = b2; } if (how == 4) { A.setTresholdLevelParameterEta(e2); e = e2; } if (how == 5) { A.setProjectionParameters(b2, e2); b = b2; e = e2; }
  auto f = [&](double x) { return (std::tanh(b * e) + std::tanh(b * (x - e))) / (std::tanh(b * e) + std::tanh(b * (1 - e))); }; struct W { Plato::HyperbolicTangentProjection* p; double operator()(double x) const { return p->apply(x); } F1 operator()(const F1& x) const { return p->apply(x); } } w{s}; laws(c, w, f, 0, 1, 0, "tanh-projection");
  Plato::HeavisideProjection H(be), H0; double hbv = be; auto* h = &H; int hw = g.in(0, 2); if (hw == 1) { h = &H0; hbv = 10; } if (hw == 2) { H.setCurvatureParameterBeta(b2); hbv = b2; } auto fh = [&](double r) { double x = 1 - r; return 1 - std::exp(-hbv * x) + x * std::exp(-hbv); }; double last = 2; for (int i = 0; i <= 10; ++i) { double x = i == 0 ? 0 : i == 10 ? 1 : (i - 1 + g.u01()) / 9.0; double y = h->apply(x); c.close(y, fh(x), "heaviside-projection-value", 1, 1e-12); c.check(y <= last + 1e-13, "heaviside-projection-monotone", str(x, " ", y)); c.check(y >= -1e-13 && y <= 1 + 1e-13, "heaviside-projection-bounded", str(y)); last = std::min(last, y); if (i == 5) last = y; }
  c.close(h->apply(0.0), 1, "heaviside-projection-ends", 0, 1e-12); c.close(h->apply(1.0), 0, "heaviside-projection-ends", 1, 1e-12); }
static V2 jk(Rng& g, int n, int w) { V2 v("junk", n, w); for (int i = 0; i < n; ++i) for (int j = 0; j < w; ++j) v(i, j) = g.real(); return v; }
static V2 copy(const V2& v) { V2 w("copy", v.extent(0), v.extent(1)); for (size_t i = 0; i < v.extent(0); ++i) for (size_t j = 0; j < v.extent(1); ++j) w(i, j) = v(i, j); return w; }
template <int d, int NT> static void apply(Ctx& c) { auto& g = c.rng; int n = g.num(6); Plato::MSIMP s(g.uni(1, 5), g.uni(0, 0.1)); V2 z("z", n, d + 1); for (int i = 0; i < n; ++i) for (int a = 0; a <= d; ++a) z(i, a) = g.coin(0.1) ? g.in(0, 1) : g.u01(); V2 x = jk(g, n, NT), y = jk(g, n, NT), x0 = copy(x), y0 = copy(y), w = copy(x), w0 = copy(x); V1 r = mk1(rnd(g, n)), q = mk1(rnd(g, n)); D r0 = get(r), q0 = get(q), z0 = get(z); c.begin(str("weighting d=", d, " terms=", NT, " cells=", n, " z=", z(0, 0), " x=", x(0, 0)));
  Plato::ApplyWeighting<d, NT, Plato::MSIMP> k(s); int skip = g.in(0, n); for (int i = n - 1; i >= 0; --i) if (i != skip) { k(i, x0, y, z); k(i, w, z); k(i, mk1(r0), q, z); k(i, r, z); }
  same(c, get(z), z0, "weighting-control-untouched"); same(c, get(x0), get(x), "weighting-input-untouched");
  for (int i = 0; i < n; ++i) { double rho = 0; for (int a = 0; a <= d; ++a) rho += z(i, a) / (d + 1); double f = i == skip ? 1 : s(rho); for (int t = 0; t < NT; ++t) { c.close(w(i, t), f * x0(i, t), "weighting-in-place", 0, 1e-12); c.close(y(i, t), i == skip ? y0(i, t) : f * x0(i, t), "weighting", 0, 1e-12); } c.close(r(i), f * r0[i], "weighting-scalar-in-place", 0, 1e-12); c.close(q(i), i == skip ? q0[i] : f * r0[i], "weighting-scalar", 0, 1e-12);
    c.close(Plato::cell_density<d + 1>(i, z), rho, "cell-density", 1, 1e-13); }
  V1 bf = mk1(kk::uni(g, d + 1, 0, 1)); for (int i = 0; i < n; ++i) { double S = 0, T = 0; for (int a = 0; a <= d; ++a) { S += bf(a); T += bf(a) * z(i, a); } c.close(Plato::cell_mass<d + 1>(i, bf, z), S * T, "cell-mass", 1, 1e-12); }
  double pen = g.u01(); V2 o = copy(x0); int j = g.in(0, n - 1); Plato::apply_penalty<NT>(j, pen, o); for (int i = 0; i < n; ++i) for (int t = 0; t < NT; ++t) c.close(o(i, t), (i == j ? pen : 1) * x0(i, t), "apply-penalty", 0, 1e-14);
  Plato::ApplyPenalty<Plato::MSIMP> ap(s); V2 o2 = copy(x0); V3 o3 = mk3(rnd(g, n * 2 * NT), n, 2, NT); D o30 = get(o3); ap(j, pen, o2); ap(j, pen, o3); double f = s(pen); for (int i = 0; i < n; ++i) for (int t = 0; t < NT; ++t) { c.close(o2(i, t), (i == j ? f : 1) * x0(i, t), "penalised-workset", 0, 1e-12); for (int b = 0; b < 2; ++b) c.close(o3(i, b, t), (i == j ? f : 1) * o30[(i * 2 + b) * NT + t], "penalised-complex-workset", 0, 1e-12); }
  Plato::HyperbolicTangentProjection pr(g.uni(1, 20), 0.5); Plato::ApplyProjection<Plato::HyperbolicTangentProjection> pj(pr); double rho = 0; for (int a = 0; a <= d; ++a) rho += z(j, a) / (d + 1); c.close(pj(j, z), pr.apply(rho), "projected-density", 1, 1e-11);
  Plato::NoPenalty np; c.check(np(g.u01()) == 1.0, "no-penalty"); np.update(); c.check(np(0.0) == 1.0 && np(1.0) == 1.0, "no-penalty"); }
VH_GROUP(simp) { for (int i = 0; i < c.n(600, 20000); ++i) tsimp(c); }
VH_GROUP(ramp) { for (int i = 0; i < c.n(600, 20000); ++i) tramp(c); }
VH_GROUP(heaviside) { for (int i = 0; i < c.n(600, 20000); ++i) theav(c); }
VH_GROUP(projection) { for (int i = 0; i < c.n(1500, 40000); ++i) tproj(c); }
VH_GROUP(application) { for (int i = 0; i < c.n(400, 10000); ++i) { apply<1, 1>(c); apply<2, 3>(c); apply<3, 6>(c); apply<3, 1>(c); apply<2, 5>(c); } }
