// C13: the algebraic rocket model keeps mass production and nozzle discharge in balance at every time, burns the geometry consistently and is repeatable.
#include "vh.hpp"
#include <fstream>
#include <memory>
#include <vector>
#include <string>
#include "PlatoTypes.hpp"
#include "Plato_AlgebraicRocketModel.hpp"
#include "Plato_Cylinder.hpp"
#include "Plato_RocketMocks.hpp"
using namespace vh; using D = std::vector<double>;
struct Ev { char k; double a, b; };
// records every call the model makes to its geometry
struct Spy : Plato::GeometryModel { std::shared_ptr<Plato::GeometryModel> g; std::vector<Ev> t; int steps = -1;
  explicit Spy(std::shared_ptr<Plato::GeometryModel> x) : g(x) {}
  double area() override { return g->area(); } double referenceMassProductionRate() override { double m = g->referenceMassProductionRate(); t.push_back({'m', m, 0}); return m; }
  void output(bool o) override { t.push_back({'o', (double)o, 0}); g->output(o); } void gradient(D& o) override { g->gradient(o); } void initialize(const Plato::ProblemParams& p) override { steps = p.mNumTimeSteps; t.push_back({'i', 0, 0}); g->initialize(p); } void updateGeometry(const Plato::ProblemParams& p) override { g->updateGeometry(p); }
  void evolveGeometry(double dt, double f) override { t.push_back({'e', dt, f}); g->evolveGeometry(dt, f); } };
struct In { double al, dt, pref, T, dth, amb, cs, R, L, br, rho; int n; bool exact; };
static In make(Rng& g) { In p; p.al = g.coin(0.2) ? 0.38 : g.uni(0.0, 0.75); p.n = g.in(1, 25); p.dt = std::pow(10, g.uni(-2, 1)); p.exact = g.coin(0.4); p.T = p.exact ? p.n * p.dt : (p.n - 1 + g.uni(0.2, 0.8)) * p.dt; p.pref = std::pow(10, g.uni(4, 7)); p.dth = g.uni(0.01, 0.2); p.amb = g.uni(0, 2e3); p.cs = g.uni(500, 3000); p.rho = g.uni(500, 3000);
  p.L = g.uni(0.1, 5); p.R = g.uni(0.01, 1); // burn rate chosen so that the first equilibrium pressure is between 0.3 and 5 times the reference pressure
  double A = M_PI * p.dth * p.dth / 4, q = g.uni(0.3, 5), peak = p.al > 0 ? std::pow(p.al, 1 / (1 - p.al)) : 0; while (q * peak > 0.9) q *= 0.9; double m = A / p.cs * std::pow(q * p.pref, 1 - p.al) * std::pow(p.pref, p.al); p.br = m / (p.rho * 2 * M_PI * p.R * p.L);
  // keep the burn-back moderate, so that the pressure sequence stays within reach of the solver started from the previous pressure
  for (;;) { double R = p.R; bool ok = true; for (int i = 0; i < p.n && ok; ++i) { double P = std::pow(p.br * p.rho * 2 * M_PI * R * p.L * p.cs / (A * std::pow(p.pref, p.al)), 1 / (1 - p.al)), dR = std::pow(P / p.pref, p.al) * p.br * p.dt; if (dR > 0.25 * R || R > 3 * p.R) ok = false; R += dR; } if (ok) break; p.T *= 0.7; p.dt *= 0.7; } return p; }
static Plato::AlgebraicRocketInputs inputs(const In& p) { Plato::AlgebraicRocketInputs i; i.mAlpha = p.al; i.mDeltaTime = p.dt; i.mRefPressure = p.pref; i.mTotalBurnTime = p.T; i.mThroatDiameter = p.dth; i.mAmbientPressure = p.amb; i.mCharacteristicVelocity = p.cs; return i; }
static Plato::ProblemParams params(const In& p) { auto q = Plato::RocketMocks::set_constant_burn_rate_problem(10, p.L, p.R, p.br); q.mPropellantDensity = p.rho; return q; }
static void judge(Ctx& c, const In& p, const Plato::AlgebraicRocketModel& m, const std::vector<Ev>& tr) { auto t = m.getTimeProfile(), th = m.getThrustProfile(), pr = m.getPressuresProfile(); size_t n = t.size(); c.check(n == th.size() && n == pr.size() && n >= 1, "profile-lengths", str(n, " ", th.size(), " ", pr.size())); if (n != th.size() || n != pr.size() || !n) return;
  c.check((int)n == p.n, "number-of-time-steps", str(n, " expected ", p.n, " T=", p.T, " dt=", p.dt)); c.check(t[0] == 0 && th[0] == 0 && pr[0] == p.pref, "initial-condition", str(t[0], " ", th[0], " ", pr[0])); for (size_t i = 0; i < n; ++i) c.close(t[i], i * p.dt, "time-profile", p.T, 1e-12);
  double A = M_PI * p.dth * p.dth / 4; std::vector<Ev> ev; for (auto& e : tr) if (e.k != 'i' && e.k != 'o') ev.push_back(e); if (!c.check(ev.size() == 2 * n, "one-evaluation-and-one-burn-per-step", str(ev.size(), " calls for ", n, " steps"))) return;
  double R = p.R; for (size_t i = 0; i < n; ++i) { c.check(ev[2 * i].k == 'm' && ev[2 * i + 1].k == 'e', "burn-after-evaluation"); double md = ev[2 * i].a, f = ev[2 * i + 1].b; c.close(md, p.br * p.rho * 2 * M_PI * R * p.L, "mass-production-rate", 0, 1e-9); c.check(ev[2 * i + 1].a == p.dt, "burn-time-step", str(ev[2 * i + 1].a));
    double P = std::pow(md * p.cs / (A * std::pow(p.pref, p.al)), 1 / (1 - p.al)); c.close(f, std::pow(P / p.pref, p.al), "burn-rate-follows-pressure", 0, 1e-7); R += f * p.br * p.dt;
    if (i + 1 < n) { c.close(pr[i + 1], P, "equilibrium-pressure", 1e-6, 1e-7); c.close(md * std::pow(pr[i + 1] / p.pref, p.al), A * pr[i + 1] / p.cs, "mass-balance", 0, 1e-7); c.close(th[i + 1], 269.0 * 9.8 * A * (pr[i + 1] - p.amb) / p.cs, "thrust", 269 * 9.8 * A * p.amb / p.cs, 1e-9); c.check(pr[i + 1] >= (i ? pr[i] * (1 - 1e-9) : 0), "progressive-burn", str(pr[i], " ", pr[i + 1])); } } }
VH_GROUP(burn) { for (int k = 0; k < c.n(1500, 40000); ++k) { auto& g = c.rng; In p = make(g); c.begin(str("burn alpha=", p.al, " dt=", p.dt, " T=", p.T, " pref=", p.pref, " R=", p.R, " n=", p.n, " exact=", p.exact)); auto cyl = std::make_shared<Plato::Cylinder>(); auto spy = std::make_shared<Spy>(cyl); bool set = g.coin(); In q = p; if (set) q = make(g); Plato::AlgebraicRocketModel m(inputs(q), spy); m.disableOutput();
    if (set) { m.setRefPressure(p.pref); m.setBurnRateExponent(p.al); m.setThroatDiameter(p.dth); m.setCharacteristicVelocity(p.cs); m.setAmbientPressure(p.amb); m.setBurnTimeStep(p.dt); m.setTotalBurnTime(p.T); m.setMaxNumIterations(1000); }
    auto pp = params(p); m.initialize(pp); c.check(spy->t.size() == 1 && spy->t[0].k == 'i', "initialised-once"); int st = pp.mNumTimeSteps; c.check(p.exact ? (st == p.n || st == p.n - 1) : st == p.n - 1, "announced-number-of-steps", str(st, " n=", p.n)); c.check(spy->steps == st, "announced-number-of-steps"); c.check(cyl->radius() == p.R && cyl->length() == p.L, "initial-geometry");
    spy->t.clear(); m.solve(); judge(c, p, m, spy->t); double Rend = cyl->radius(); auto t1 = m.getTimeProfile(), h1 = m.getThrustProfile(), p1 = m.getPressuresProfile();
    // the same problem again gives the same history, with nothing left over from the first
    m.initialize(pp); spy->t.clear(); m.solve(); c.check(m.getTimeProfile() == t1 && m.getThrustProfile() == h1 && m.getPressuresProfile() == p1 && cyl->radius() == Rend, "repeatable");
    In r = make(g); m.setRefPressure(r.pref); m.setBurnRateExponent(r.al); m.setThroatDiameter(r.dth); m.setCharacteristicVelocity(r.cs); m.setAmbientPressure(r.amb); m.setBurnTimeStep(r.dt); m.setTotalBurnTime(r.T); auto rp = params(r); m.initialize(rp); spy->t.clear(); m.solve(); judge(c, r, m, spy->t);
    if (k < 40) { bool o = g.coin(); remove("thrust_profile.txt"); spy->t.clear(); m.output(o); std::ifstream f("thrust_profile.txt"); D got; double x; while (f >> x) got.push_back(x); auto w = m.getThrustProfile(); if (o) { c.check(got.size() == w.size(), "output-lines", str(got.size())); for (size_t i = 0; i < got.size() && i < w.size(); ++i) c.close(got[i], w[i], "output-values", 1e-3, 1e-4); c.check(spy->t.size() == 1 && spy->t[0].k == 'o', "output-geometry"); } else c.check(got.empty() && spy->t.empty(), "no-output-unless-asked"); } } }
VH_GROUP(cylinder) { for (int k = 0; k < c.n(4000, 80000); ++k) { auto& g = c.rng; Plato::Cylinder y; c.begin(str("cylinder ", k, " ", g.u01())); c.check(y.radius() == 0 && y.length() == 0 && y.area() == 0 && y.referenceMassProductionRate() == 0, "empty-cylinder"); double L = g.pos(), R = g.pos(), b = g.pos(), s = g.pos(), mx = g.pos(); auto p = g.coin() ? Plato::RocketMocks::set_constant_burn_rate_problem(mx, L, R, b) : Plato::RocketMocks::set_linear_burn_rate_problem(mx, L, R, b, s); c.check(p.mGeometry.size() == 3 && p.mRefBurnRate.size() == 2 && p.mGeometry[0] == mx && p.mGeometry[1] == L && p.mGeometry[2] == R && p.mRefBurnRate[0] == b, "mock-parameters"); p.mPropellantDensity = g.pos(); if (g.coin()) y.initialize(p); else y.updateGeometry(p);
    double r = R; for (int i = 0; i < 6; ++i) { c.close(y.radius(), r, "cylinder-radius", 0, 1e-12); c.check(y.length() == L, "cylinder-length"); c.close(y.area(), 2 * M_PI * r * L, "cylinder-area", 0, 1e-12); c.close(y.referenceMassProductionRate(), b * p.mPropellantDensity * 2 * M_PI * r * L, "cylinder-mass-rate", 0, 1e-12); D gr(2, NAN); y.gradient(gr); c.check(gr.size() == 2, "cylinder-gradient-size"); c.close(gr[0], 2 * M_PI * L, "cylinder-gradient", 0, 1e-12); c.close(gr[1], 2 * M_PI * r, "cylinder-gradient", 0, 1e-12); c.close(r * gr[0], y.area(), "gradient-is-derivative-of-area", 0, 1e-12); double dt = g.pos(), f = g.pos(); y.evolveGeometry(dt, f); r += dt * f * b; } } }
