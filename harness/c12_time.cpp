// C12: the time integrators' residuals vanish exactly on the update formulas they stand for and their gradients are the derivatives of the residuals.
#include "kk.hpp"
#include "Teuchos_ParameterList.hpp"
#include "hyperbolic/Newmark.hpp"
#include "parabolic/TrapezoidIntegrator.hpp"
using namespace kk;
struct Ev {};
static double dir(Rng& g) { return g.uni(-1, 1); }
static void newmark(Ctx& c) { auto& g = c.rng; int n = g.coin(0.05) ? 0 : g.in(1, 40); double ga = g.coin(0.3) ? 0.5 : g.uni(0.1, 1.5), be = g.coin(0.3) ? 0.25 : g.uni(0.05, 1), dt = std::pow(10, g.uni(-5, 2)); Teuchos::ParameterList L; L.set("Newmark Gamma", ga); L.set("Newmark Beta", be); c.begin(str("newmark n=", n, " gamma=", ga, " beta=", be, " dt=", dt), n > 0); Plato::NewmarkIntegrator<Ev> k(L);
  D u0 = rnd(g, n), v0 = rnd(g, n), a0 = rnd(g, n), a1 = rnd(g, n), u1, v1; for (int i = 0; i < n; ++i) { u1.push_back(u0[i] + dt * v0[i] + dt * dt * ((0.5 - be) * a0[i] + be * a1[i])); v1.push_back(v0[i] + dt * ((1 - ga) * a0[i] + ga * a1[i])); }
  V1 U0 = mk1(u0), V0 = mk1(v0), A0 = mk1(a0), U = mk1(u1), V = mk1(v1), A = mk1(a1); auto rv = k.v_value(U, U0, V, V0, A, A0, dt), ra = k.a_value(U, U0, V, V0, A, A0, dt); c.check((int)rv.size() == n && (int)ra.size() == n, "newmark-size");
  double sd = amax(u0) + dt * amax(v0) + dt * dt * (amax(a0) * (1 + be) + amax(a1)), sv = amax(v0) + dt * (amax(a0) * (2 + ga) + amax(a1) * 2) + ga / (be * dt) * sd, sa = amax(a0) + amax(a1) + sd / (be * dt * dt);
  for (int i = 0; i < n; ++i) { c.check(std::fabs(rv(i)) <= 1e-12 * sv, "newmark-velocity-update", str(rv(i), " scale ", sv)); c.check(std::fabs(ra(i)) <= 1e-12 * sa, "newmark-acceleration-update", str(ra(i), " scale ", sa)); }
  same(c, get(U), u1, "newmark-input"); same(c, get(U0), u0, "newmark-input"); same(c, get(V), v1, "newmark-input"); same(c, get(V0), v0, "newmark-input"); same(c, get(A), a1, "newmark-input"); same(c, get(A0), a0, "newmark-input");
  // gradients: the residuals are linear, so a difference over a finite step is exact
  auto grad = [&](int arg, double gv, double gA, const char* nm) { D d(n); for (auto& x : d) x = dir(g); D w[6] = {u1, u0, v1, v0, a1, a0}; double step = arg < 2 ? 1 : arg < 4 ? 1 / dt : 1 / (dt * dt); step *= std::max(1e-300, sd); if (sd == 0) step = 1; for (int i = 0; i < n; ++i) w[arg][i] += step * d[i];
    auto qv = k.v_value(mk1(w[0]), mk1(w[1]), mk1(w[2]), mk1(w[3]), mk1(w[4]), mk1(w[5]), dt), qa = k.a_value(mk1(w[0]), mk1(w[1]), mk1(w[2]), mk1(w[3]), mk1(w[4]), mk1(w[5]), dt); double kv = sv + std::fabs(gv) * step + step * dt, kA = sa + std::fabs(gA) * step; for (int i = 0; i < n; ++i) { c.close(qv(i) - rv(i), gv * step * d[i], str("newmark-dv/d", nm), kv + ga / (be * dt) * sd, 1e-11); c.close(qa(i) - ra(i), gA * step * d[i], str("newmark-da/d", nm), kA, 1e-11); } };
  grad(0, k.v_grad_u(dt), k.a_grad_u(dt), "u"); grad(1, k.v_grad_u_prev(dt), k.a_grad_u_prev(dt), "u_prev"); grad(3, k.v_grad_v_prev(dt), k.a_grad_v_prev(dt), "v_prev"); grad(5, k.v_grad_a_prev(dt), k.a_grad_a_prev(dt), "a_prev"); grad(2, 1, 0, "v"); grad(4, 0, 1, "a");
  // both residuals measure the distance of the new velocity and acceleration from the update
  D e = rnd(g, n), V2_ = v1, A2_ = a1; for (int i = 0; i < n; ++i) { V2_[i] += e[i]; A2_[i] -= e[i]; } auto qv = k.v_value(U, U0, mk1(V2_), V0, mk1(A2_), A0, dt), qa = k.a_value(U, U0, mk1(V2_), V0, mk1(A2_), A0, dt); for (int i = 0; i < n; ++i) { c.close(qv(i), e[i], "newmark-velocity-distance", sv, 1e-11); c.close(qa(i), -e[i], "newmark-acceleration-distance", sa, 1e-11); }
  // a constant-acceleration motion is integrated exactly whatever gamma and beta
  double A_ = g.nz(), V_ = g.real(), U_ = g.real(), t = 0; double su = std::fabs(U_) + dt * std::fabs(V_) + dt * dt * std::fabs(A_); for (int s = 0; s < 3; ++s) { D x{U_ + V_ * t + A_ * t * t / 2}, v{V_ + A_ * t}, a{A_}; double t1 = t + dt; D x1{U_ + V_ * t1 + A_ * t1 * t1 / 2}, w{V_ + A_ * t1}; auto p = k.v_value(mk1(x1), mk1(x), mk1(w), mk1(v), mk1(a), mk1(a), dt), q = k.a_value(mk1(x1), mk1(x), mk1(w), mk1(v), mk1(a), mk1(a), dt); c.check(std::fabs(p(0)) <= 1e-11 * su * (1 + ga / be) / dt * 10, "newmark-constant-acceleration", str(p(0))); c.check(std::fabs(q(0)) <= 1e-11 * su / (be * dt * dt) * 10, "newmark-constant-acceleration", str(q(0))); t = t1; } }
static void trap(Ctx& c) { auto& g = c.rng; int n = g.in(1, 40); bool dflt = g.coin(0.2); double al = dflt ? 0.5 : g.coin(0.2) ? 1 : g.uni(0.1, 1), dt = std::pow(10, g.uni(-5, 2)); Teuchos::ParameterList L; if (!dflt) L.set("Trapezoid Alpha", al); c.begin(str("trapezoid n=", n, " alpha=", al, " dt=", dt)); Plato::Parabolic::TrapezoidIntegrator<Ev> k(L);
  D u0 = rnd(g, n), v0 = rnd(g, n), v1 = rnd(g, n), u1; for (int i = 0; i < n; ++i) u1.push_back(u0[i] + dt * ((1 - al) * v0[i] + al * v1[i])); V1 U = mk1(u1), U0 = mk1(u0), V = mk1(v1), V0 = mk1(v0); auto r = k.v_value(U, U0, V, V0, dt); double s = amax(v1) + amax(v0) / al + (2 * amax(u0) + dt * (amax(v0) + amax(v1))) / (al * dt); c.check((int)r.size() == n, "trapezoid-size"); for (int i = 0; i < n; ++i) c.check(std::fabs(r(i)) <= 1e-12 * s, "trapezoid-update", str(r(i), " scale ", s)); same(c, get(U), u1, "trapezoid-input"); same(c, get(U0), u0, "trapezoid-input"); same(c, get(V), v1, "trapezoid-input"); same(c, get(V0), v0, "trapezoid-input");
  auto grad = [&](int arg, double gr, const char* nm) { D d(n), w[4] = {u1, u0, v1, v0}; double step = (arg < 2 ? 1 : 1 / dt) * (amax(u0) + dt * (amax(v0) + amax(v1)) + 1e-300); for (int i = 0; i < n; ++i) { d[i] = dir(g); w[arg][i] += step * d[i]; } auto q = k.v_value(mk1(w[0]), mk1(w[1]), mk1(w[2]), mk1(w[3]), dt); for (int i = 0; i < n; ++i) c.close(q(i) - r(i), gr * step * d[i], str("trapezoid-dv/d", nm), s + std::fabs(gr) * step, 1e-11); };
  grad(0, k.v_grad_u(dt), "u"); grad(1, k.v_grad_u_prev(dt), "u_prev"); grad(3, k.v_grad_v_prev(dt), "v_prev"); grad(2, 1, "v"); }
VH_GROUP(newmark) { for (int i = 0; i < c.n(1500, 30000); ++i) newmark(c); }
VH_GROUP(trapezoid) { for (int i = 0; i < c.n(2000, 40000); ++i) trap(c); }
VH_GROUP(parameters) { for (int i = 0; i < c.n(50, 500); ++i) { Teuchos::ParameterList A, B, E; A.set("Newmark Gamma", c.rng.u01()); B.set("Newmark Beta", c.rng.u01()); c.begin(str("missing ", A.get<double>("Newmark Gamma"))); c.rejects([&] { Plato::NewmarkIntegrator<Ev> k(A); }, "missing-beta"); c.rejects([&] { Plato::NewmarkIntegrator<Ev> k(B); }, "missing-gamma"); c.rejects([&] { Plato::NewmarkIntegrator<Ev> k(E); }, "missing-both"); } }
