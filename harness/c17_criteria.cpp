// C17: criteria of the steady problems.  Value against an independent evaluation of the criterion tree; gradients against its central differences.
#include "phys.hpp"
#include "Mechanics.hpp"
#include "Thermal.hpp"
#include "Electromechanics.hpp"
#include "Thermomechanics.hpp"
#include "elliptic/ScalarFunctionBaseFactory.hpp"
using namespace phys; static const int d = VDIM; using Base = Plato::Elliptic::ScalarFunctionBase;
static Geo mesh(Rng& r, int b) { return box(r, d, d == 2 ? 3 : 2, -1, true, b); }
static D ctrl(Rng& r, const Geo& g) { D z = uni(r, g.nn(), 0.2, 1.0); if (r.coin(0.2)) for (auto& x : z) x = 1; return z; }
static Plato::ScalarMultiVector states(const D& u, int n) { int ns = (int)u.size() / n; Plato::ScalarMultiVector s("state", ns, n); for (int k = 0; k < ns; ++k) for (int i = 0; i < n; ++i) s(k, i) = u[k * n + i]; return s; }
template <class Phys> struct Fn { PL p; Plato::DataMap dm; Plato::SpatialModel sm; std::shared_ptr<Base> f; Fn(Geo& g, const PL& p_, std::string n) : p(p_), sm(g.mesh, g.sets, p) { Plato::Elliptic::ScalarFunctionBaseFactory<Phys> fac; f = fac.create(sm, dm, p, n); } };
static void judge(Ctx& c, Base& f, Geo& g, int nd, const Crit& k, const D& u, const D& z, double htol = 1, double vtol = 1e-9) {
  V1 Z = mk1(z); int n = g.nn() * nd, ns = (int)u.size() / n; Plato::Solution S(states(u, n)); double w = k.f(g, u, z), v = f.value(S, Z), sc = std::max(1.0, std::fabs(w)); c.check(std::fabs(v - w) <= vtol * sc, k.kind + "-value", str(v, " expected ", w)); c.check(f.value(S, Z) == v, k.kind + "-value-repeatable");
  D gz = get(f.gradient_z(S, Z)), gx = get(f.gradient_x(S, Z)), gu; for (int s = 0; s < ns; ++s) { D t = get(f.gradient_u(S, Z, s)); if (!c.check((int)t.size() == n, k.kind + "-gradient-size")) return; gu.insert(gu.end(), t.begin(), t.end()); }
  if (!c.check((int)gz.size() == g.nn() && (int)gx.size() == g.nn() * d, k.kind + "-gradient-size")) return;
  same(c, get(Z), z, k.kind + "-input-untouched"); D u2; for (int s = 0; s < ns; ++s) for (int i = 0; i < n; ++i) u2.push_back(S.State(s, i)); same(c, u2, u, k.kind + "-input-untouched"); c.check(f.value(S, Z) == v, k.kind + "-value-repeatable");
  for (int t = 0; t < 3; ++t) { D dz = uni(c.rng, z.size()), dx = uni(c.rng, g.xyz.size()), du = uni(c.rng, u.size()); if (t == 2) { for (D* q : {&dz, &dx, &du}) { std::fill(q->begin(), q->end(), 0.0); (*q)[c.rng.in(0, q->size() - 1)] = 1; } } for (auto& x : dx) x *= 0.05;
    auto cmp = [&](const D& gr, const D& dir, std::pair<double, double> be, const char* nm, double s) { double b = be.first; double a = dot(gr, dir), m = 0; for (size_t i = 0; i < gr.size(); ++i) m = std::max(m, std::fabs(gr[i] * dir[i])); c.check(std::fabs(a - b) <= htol * 3e-6 * std::max(s * sc, m) + 10 * be.second, k.kind + nm, str(a, " expected ", b)); };
    cmp(gz, dz, fbest([&](const D& y) { return k.f(g, u, y); }, z, dz, 2e-3), "-gradient-z", 1); cmp(gu, du, fbest([&](const D& y) { return k.f(g, y, z); }, u, du, 2e-3), "-gradient-u", 1);
    cmp(gx, dx, fbest([&](const D& y) { Geo h(g); h.xyz = y; return k.f(h, u, z); }, g.xyz, dx, 1e-2), "-gradient-x", 1); } }
// a tree of criteria of one physics
template <class Phys> static void trees(Ctx& c, std::function<Model(Rng&, int)> mk, std::function<Crit(Gen&, const Model&, bool)> leaf, int n2, int n3) { auto& r = c.rng; for (int it = 0; it < c.n(d == 2 ? n2 : n3, 600); ++it) {
    int nb = r.in(1, 2); Geo g = mesh(r, nb); Model m = mk(r, nb); PL p; m.put(p, g); int ns = r.coin(0.2) ? 2 : 1; D z = ctrl(r, g), u = uni(r, g.nn() * m.nd * ns); Gen G{r, p}; G.g = &g; G.u = u; G.z = z; G.leaf = [&](Gen& q) { return leaf(q, m, ns == 1); };
    Crit k = G.tree(r.coin(0.6) ? 0 : r.in(1, 2)); c.begin(str(m.name, " ", k.name, " steps ", ns, " ", g.desc, " u0 ", u[0])); Fn<Phys> f(g, p, k.name); if (!c.check(f.f != nullptr, "criterion-created", k.name)) continue; c.check(f.f->name() == k.name, "criterion-name"); double v = std::fabs(k.f(g, u, z)); if (!(v < 1e6)) continue; judge(c, *f.f, g, m.nd, k, u, z);
    f.f->updateProblem(mk1(D(u.begin(), u.begin() + g.nn() * m.nd)), mk1(z)); D u2 = uni(r, u.size()), z2 = ctrl(r, g); double w = k.f(g, u2, z2); if (!(std::fabs(w) < 1e6) || !G.regular(u2, z2)) continue; c.check(std::fabs(f.f->value(Plato::Solution(states(u2, g.nn() * m.nd)), mk1(z2)) - w) <= 1e-9 * std::max(1.0, std::fabs(w)), k.kind + "-value-other-point"); } }

SIM_GROUP(mechanics) { trees<Plato::Mechanics<VDIM>>(c, [](Rng& r, int nb) { return mechanics(r, d, nb); }, leafMechanics, 60, 26); }
SIM_GROUP(thermal) { trees<Plato::Thermal<VDIM>>(c, [](Rng& r, int nb) { return thermal(r, d, nb); }, leafThermal, 40, 20); }
SIM_GROUP(thermomechanics) { trees<Plato::Thermomechanics<VDIM>>(c, [](Rng& r, int nb) { return thermomechanics(r, d, nb); }, leafThermomechanics, 40, 20); }
SIM_GROUP(electromechanics) { trees<Plato::Electromechanics<VDIM>>(c, [](Rng& r, int nb) { return electromechanics(r, d, nb); }, leafElectromechanics, 40, 20); }

// augmented Lagrangian stress constraints: the value, its gradients and the multiplier updates along a history of updates
struct Aug { int kind; double pen = 3, limit = 1, mu, ersatz = 1e-9, ub, lam0 = 0.01, ex, mw = 1, sw = 1, mlb = 0, mub = 4, m0 = 1, red = 0.95; bool ted = false; D lam, mass; };
template <class Phys> static void augmented(Ctx& c, bool tm) { auto& r = c.rng; for (int it = 0; it < c.n(d == 2 ? 24 : 12, 300); ++it) {
    Aug a; a.kind = tm ? 0 : r.in(0, 2); a.ted = !tm && a.kind == 0 && r.coin(0.4); int nb = a.kind == 0 ? r.in(1, 2) : 1; Geo g = mesh(r, nb); Model m = tm ? thermomechanics(r, d, nb) : mechanics(r, d, nb, a.ted ? 0 : -1); D rho(nb, 1.0); PL p; m.put(p, g);
    const char* T[3] = {"Stress Constraint Quadratic", "Stress Constraint General", "Stress Constraint"}; const char* K[3] = {"stress-quadratic", "stress-general", "stress-constraint"}; PL& l = p.sublist("Criteria").sublist("con"); l.set("Type", std::string("Scalar Function")); l.set("Scalar Function Type", std::string(T[a.kind]));
    auto opt = [&](const char* n, double& v, double def, double lo, double hi) { v = def; if (r.coin()) { v = r.uni(lo, hi); l.set(n, v); } };
    opt("SIMP penalty", a.pen, 3, 1, 4); opt(a.kind == 0 ? "Local Measure Limit" : "Stress Limit", a.limit, 1, 0.5, 2); opt("Initial Penalty", a.mu, a.kind == 2 ? 0.1 : 0.25, 0.1, 2); opt("Min. Ersatz Material", a.ersatz, 1e-9, 0, 0.1); opt("Penalty Upper Bound", a.ub, a.kind == 2 ? 100 : 500, 0.5, 3); opt("Initial Lagrange Multiplier", a.lam0, 0.01, 0, 1); opt("Penalty Expansion Multiplier", a.ex, a.kind == 2 ? 1.05 : 1.5, 1, 2);
    if (a.kind == 1) { opt("Mass Criterion Weight", a.mw, 1, 0, 2); opt("Stress Criterion Weight", a.sw, 1, 0, 2); } if (a.kind == 2) { opt("Mass Multiplier Lower Bound", a.mlb, 0, 0, 0.3); opt("Mass Multiplier Upper Bound", a.mub, 4, 1, 4); opt("Initial Mass Multiplier", a.m0, 1, 0.1, 2); opt("Mass Multiplier Reduction Multiplier", a.red, 0.95, 0.5, 1); }
    if (a.kind && r.coin()) { rho[0] = r.uni(0.5, 3); p.sublist("Material Models").sublist("mat0").set("Density", rho[0]); } if (a.kind == 0 && (a.ted || r.coin())) l.set("Local Measure", std::string(a.ted ? "TensileEnergyDensity" : "VonMises"));
    a.lam.assign(g.ne(), a.lam0); a.mass.assign(g.ne(), a.m0); double tot = 0; for (int e = 0; e < g.ne(); ++e) tot += cell(g, e).vol * rho[0]; std::vector<int> nc(nb, 0); for (int e = 0; e < g.ne(); ++e) nc[nb == 1 ? 0 : g.blockOf[e]]++;
    auto measure = [=](const Geo& h, int e, const Cell& q, const D& u) { Fld f = m.f(h, e, q, u); if (!a.ted) return mises(d, m.name == "mechanics" ? f.at("cstress") : f.at("stress")) / a.limit; M E(d, d); D s = f.at("strain"); for (int k = 0; k < nvoigt(d); ++k) { auto x = vij(d, k); E(x.first, x.second) = E(x.second, x.first) = k < d ? s[k] : s[k] / 2; } D ev = symEig(E); double nu = m.el[h.blockOf[e] % m.nb].nu, Ym = m.el[h.blockOf[e] % m.nb].E, lam = Ym * nu / ((1 + nu) * (1 - 2 * nu)), mu = Ym / (2 * (1 + nu)), trc = 0, w = 0; for (double x : ev) { trc += x; if (x > 0) w += mu * x * x; } if (trc > 0) w += 0.5 * lam * trc * trc; return w / a.limit; };
    auto hval = [=](double x, double rb) { double s = a.ersatz + (1 - a.ersatz) * std::pow(rb, a.pen); if (x <= 1) return 0.0; double q = (x - 1) * (x - 1); return s * (a.kind == 1 ? q * q + q : q); };
    auto par = std::make_shared<Aug>(a); Crit k; k.kind = str(K[a.kind], a.ted ? "-ted" : tm ? "-tm" : ""); k.name = "con";
    k.f = [=](const Geo& h, const D& u, const D& z) { double s = 0; for (int e = 0; e < h.ne(); ++e) { auto q = cell(h, e); double rb = nodeAvg(q, z), x = measure(h, e, q, u), hv = hval(x, rb); double con = (par->lam[e] * hv + 0.5 * par->mu * hv * hv) / nc[nb == 1 ? 0 : h.blockOf[e]]; double ms = rb * rho[0] * q.vol / tot; s += a.kind == 0 ? con : a.kind == 1 ? a.mw * ms + a.sw * con : par->mass[e] * ms + con; } return s; };
    D z = ctrl(r, g), u = uni(r, g.nn() * m.nd); c.begin(str(T[a.kind], a.ted ? " ted " : " ", g.desc, " limit ", a.limit, " u0 ", u[0]));
    auto kink = [&](const D& u) { for (int e = 0; e < g.ne(); ++e) if (std::fabs(measure(g, e, cell(g, e), u) - 1) < 0.02) return true; return false; }; if (kink(u)) for (auto& x : u) x *= 1.1;
    Fn<Phys> f(g, p, "con"); /* principal strains are iterated to a tolerance */ judge(c, *f.f, g, m.nd, k, u, z, a.ted ? 10 : 1, a.ted ? 1e-6 : 1e-9);
    { f.f->value(Plato::Solution(states(u, g.nn() * m.nd)), mk1(z)); std::string fn = a.kind == 0 ? (a.ted ? "TensileEnergyDensity" : "VonMises") : "Vonmises"; D got, exp; if (f.dm.scalarVectors.count(fn)) got = get(f.dm.scalarVectors.at(fn)); for (int e = 0; e < g.ne(); ++e) { auto q = cell(g, e); exp.push_back(measure(g, e, q, u) * a.limit * (a.ersatz + (1 - a.ersatz) * std::pow(nodeAvg(q, z), a.pen))); } near_(c, got, exp, k.kind + "-output", a.ted ? 1e-6 : 1e-9, 1e-3); }
    for (int s = 0; s < 3; ++s) { D us = uni(r, u.size()), zs = ctrl(r, g); f.f->updateProblem(mk1(us), mk1(zs));
      for (int e = 0; e < g.ne(); ++e) { auto q = cell(g, e); double rb = nodeAvg(q, zs), x = measure(g, e, q, us), hv = hval(x, rb); if (par->kind == 2) par->mass[e] = x * std::sqrt(rb) > 1 ? std::max(0.7 * par->mass[e] - 0.1, par->mlb) : std::min(2.5 * par->mass[e] + 0.5, par->mub); par->lam[e] = std::max(par->lam[e] + par->mu * hv, 0.0); }
      par->mu = std::min(par->mu * par->ex, par->ub); par->mub *= par->red; double w = k.f(g, u, z), v = f.f->value(Plato::Solution(states(u, g.nn() * m.nd)), mk1(z)); c.check(std::fabs(v - w) <= (a.ted ? 1e-6 : 1e-9) * std::max(1.0, std::fabs(w)), k.kind + "-value-after-update", str("update ", s, " ", v, " expected ", w)); }
    judge(c, *f.f, g, m.nd, k, u, z, a.ted ? 10 : 1, a.ted ? 1e-6 : 1e-9); } }
SIM_GROUP(augmented) { augmented<Plato::Mechanics<VDIM>>(c, false); augmented<Plato::Thermomechanics<VDIM>>(c, true); }

// requested output fields hold every cell's values at the evaluated point
SIM_GROUP(outputs) { auto& r = c.rng; for (int it = 0; it < c.n(d == 2 ? 30 : 15, 300); ++it) { int kind = r.in(0, 2), nb = r.in(1, 2); Geo g = mesh(r, nb); Model m = kind == 2 ? electromechanics(r, d, nb) : mechanics(r, d, nb); PL p; m.put(p, g); Pen pn = pen(r); D z = ctrl(r, g), u = uni(r, g.nn() * m.nd), a = uni(r, nvoigt(d)); int col = r.in(0, nvoigt(d) - 1);
    PL& l = p.sublist("Criteria").sublist("k"); l.set("Type", std::string("Scalar Function")); l.sublist("Penalty Function") = pn.list(); const char* T[3] = {"Internal Elastic Energy", "Effective Energy", "Internal Electroelastic Energy"}; l.set("Scalar Function Type", std::string(T[kind])); std::vector<std::string> all = kind == 0 ? std::vector<std::string>{"strain", "stress"} : kind == 1 ? std::vector<std::string>{"effective stress", "cell volume"} : std::vector<std::string>{"strain", "stress", "edisp"}, want; Teuchos::Array<std::string> pl; for (auto& n : all) if (r.coin(0.7)) { want.push_back(n); pl.push_back(n); }
    if (kind == 1) { l.set("Assumed Strain", arr(a)); p.sublist("Cell Problem Forcing").set("Column Index", col); l.set("Plottable", pl); } else p.set("Plottable", pl);
    std::map<std::string, D> exp; for (int e = 0; e < g.ne(); ++e) { auto q = cell(g, e); Fld f = m.f(g, e, q, u); double w = pn(nodeAvg(q, z)); auto put = [&](const char* n, D v, double s) { for (double x : v) exp[n].push_back(s * x); }; put("strain", f.at("strain"), 1); put("stress", f.at("stress"), w); if (kind == 2) put("edisp", f.at("edisp"), w); else { D s(nvoigt(d)); for (int i = 0; i < nvoigt(d); ++i) s[i] = m.el[g.blockOf[e] % nb].C(i, col) - f.at("cstress")[i]; put("effective stress", s, w); exp["cell volume"].push_back(q.vol); } }
    c.begin(str("outputs ", T[kind], " ", want.size(), " ", g.desc, " u0 ", u[0])); auto go = [&](auto& F) { F.f->value(Plato::Solution(states(uni(r, u.size()), g.nn() * m.nd)), mk1(z)); F.f->value(Plato::Solution(states(u, g.nn() * m.nd)), mk1(z)); for (auto& n : all) { bool in = F.dm.scalarMultiVectors.count(n) || F.dm.scalarVectors.count(n), w = std::count(want.begin(), want.end(), n); if (c.check(in == w, str("output-", n, "-when-requested")) && w) near_(c, n == "cell volume" ? get(F.dm.scalarVectors.at(n)) : get(F.dm.scalarMultiVectors.at(n)), exp[n], str("output-", n), 1e-10, 1e-3); } };
    if (kind == 2) { Fn<Plato::Electromechanics<VDIM>> F(g, p, "k"); go(F); } else { Fn<Plato::Mechanics<VDIM>> F(g, p, "k"); go(F); } } }
// invalid criteria are refused, never computed with
SIM_GROUP(rejections) { auto& r = c.rng; for (int it = 0; it < c.n(3, 30); ++it) { Geo g = mesh(r, 1); Model m = mechanics(r, d, 1, 0); PL good; m.put(good, g); D z = ctrl(r, g), u = uni(r, g.nn() * d); PL& cr = good.sublist("Criteria"); auto sf = [&](PL& l, const char* n, const char* t) -> PL& { PL& q = l.sublist(n); q.set("Type", std::string("Scalar Function")); q.set("Scalar Function Type", std::string(t)); return q; }; sf(cr, "energy", "Internal Elastic Energy"); sf(cr, "pnorm", "Stress P-Norm").set("Exponent", 2.0); sf(cr, "con", "Stress Constraint Quadratic"); { PL& s = cr.sublist("sol"); s.set("Type", std::string("Solution")); s.set("Domain", std::string("ns_x0")); s.set("Normal", arr(D(d, 1.0))); }
    auto run = [&](const PL& p, std::string n) { Fn<Plato::Mechanics<VDIM>> F(g, p, n); if (!F.f) throw std::runtime_error("none"); F.f->value(Plato::Solution(states(u, g.nn() * d)), mk1(z)); };
    auto bad = [&](const std::string& what, const std::string& n, std::function<void(PL&, PL&)> f) { c.begin(str(what, " ", it)); PL p(good); f(p, p.sublist("Criteria")); c.rejects([&] { run(p, n); }, "refuses-" + what); };
    c.begin("valid"); for (const char* n : {"energy", "pnorm", "con", "sol"}) c.accepts([&] { run(good, n); }, "accepts-valid"); Teuchos::Array<std::string> two(2, std::string("energy"));
    auto pnl = [](PL&, PL& l) { for (const char* n : {"energy", "pnorm"}) l.sublist(n).sublist("Penalty Function").set("Type", std::string("Simp")); }; bad("unknown-penalty", "energy", pnl); bad("unknown-penalty", "pnorm", pnl); bad("unknown-criterion-type", "energy", [](PL&, PL& l) { l.sublist("energy").set("Scalar Function Type", std::string("Internal Energy")); }); bad("missing-criterion-type", "energy", [](PL&, PL& l) { l.sublist("energy").remove("Scalar Function Type"); });
    bad("unknown-material", "energy", [](PL& p, PL&) { p.sublist("Spatial Model").sublist("Domains").sublist("Design Volume").set("Material Model", std::string("mat7")); }); bad("missing-exponent", "pnorm", [](PL&, PL& l) { l.sublist("pnorm").remove("Exponent"); }); bad("unknown-local-measure", "con", [](PL&, PL& l) { l.sublist("con").set("Local Measure", std::string("Tresca")); });
    bad("tensile-measure-needs-isotropic", "con", [&](PL& p, PL& l) { l.sublist("con").set("Local Measure", std::string("TensileEnergyDensity")); p.sublist("Material Models").remove("mat0"); p.sublist("Material Models").sublist("mat0") = elastic(r, d, 1).list; });
    bad("missing-normal", "sol", [](PL&, PL& l) { l.sublist("sol").remove("Normal"); }); bad("unknown-node-set", "sol", [](PL&, PL& l) { l.sublist("sol").set("Domain", std::string("ns_w")); }); bad("missing-domain", "sol", [](PL&, PL& l) { l.sublist("sol").remove("Domain"); });
    bad("weights-length", "s", [&](PL&, PL& l) { PL& s = l.sublist("s"); s.set("Type", std::string("Weighted Sum")); s.set("Functions", two); s.set("Weights", arr(D(r.coin() ? 1 : 3, 1.0))); }); bad("gold-length", "s", [&](PL&, PL& l) { PL& s = l.sublist("s"); s.set("Type", std::string("Least Squares")); s.set("Functions", two); s.set("Weights", arr(D(2, 1.0))); s.set("Gold Values", arr(D(r.coin() ? 1 : 3, 1.0))); }); bad("weights-length", "s", [&](PL&, PL& l) { PL& s = l.sublist("s"); s.set("Type", std::string("Least Squares")); s.set("Functions", two); s.set("Weights", arr(D(3, 1.0))); s.set("Gold Values", arr(D(2, 1.0))); });
    bad("unknown-part", "s", [&](PL&, PL& l) { PL& s = l.sublist("s"); s.set("Type", std::string("Weighted Sum")); Teuchos::Array<std::string> n(1, std::string("nosuch")); s.set("Functions", n); s.set("Weights", arr(D(1, 1.0))); });
    bad("unknown-part", "s", [&](PL&, PL& l) { PL& s = l.sublist("s"); s.set("Type", std::string("Division")); s.set(r.coin() ? "Numerator" : "Denominator", std::string("nosuch")); for (const char* n : {"Numerator", "Denominator"}) if (!s.isParameter(n)) s.set(n, std::string("energy")); }); bad("unknown-part", "s", [&](PL&, PL& l) { PL& s = l.sublist("s"); s.set("Type", std::string("Least Squares")); Teuchos::Array<std::string> n(1, std::string("nosuch")); s.set("Functions", n); s.set("Weights", arr(D(1, 1.0))); s.set("Gold Values", arr(D(1, 1.0))); }); } }
