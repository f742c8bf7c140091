// C16: geometric criteria.  Value against an independent evaluation of the whole criterion tree; gradients against its central differences.
#include "crit.hpp"
#include "Geometrical.hpp"
#include "geometric/ScalarFunctionBaseFactory.hpp"
#include "geometric/GeometryScalarFunction.hpp"
#include "geometric/MassMoment.hpp"
using namespace crit; static const int d = VDIM; using Phys = Plato::Geometrical<VDIM>; using Ev = Plato::Geometric::Evaluation<Plato::Simplex<VDIM>>;
static Geo mesh(Rng& r, int b) { return box(r, d, d == 2 ? 4 : 2, -1, true, b); }
static D ctrl(Rng& r, const Geo& g) { D z = uni(r, g.nn(), 0.2, 1.0); if (r.coin(0.2)) for (auto& x : z) x = 1; return z; }
static void judge(Ctx& c, Plato::Geometric::ScalarFunctionBase& f, Geo& g, const Crit& k, const D& z) {
  V1 Z = mk1(z); double w = k.f(g, {}, z), v = f.value(Z), sc = std::max(1.0, std::fabs(w)); c.check(std::fabs(v - w) <= 1e-9 * sc, k.kind + "-value", str(v, " expected ", w)); c.check(f.value(Z) == v, k.kind + "-value-repeatable");
  D gz = get(f.gradient_z(Z)), gx = get(f.gradient_x(Z)); c.check((int)gz.size() == g.nn() && (int)gx.size() == g.nn() * d, k.kind + "-gradient-size"); if ((int)gz.size() != g.nn() || (int)gx.size() != g.nn() * d) return;
  same(c, get(Z), z, k.kind + "-input-untouched");
  for (int t = 0; t < 3; ++t) { D dz = uni(c.rng, z.size()), dx = uni(c.rng, g.xyz.size()); if (t == 2) { std::fill(dz.begin(), dz.end(), 0.0); std::fill(dx.begin(), dx.end(), 0.0); dz[c.rng.in(0, dz.size() - 1)] = 1; dx[c.rng.in(0, dx.size() - 1)] = 1; } for (auto& x : dx) x *= 0.05;
    auto fz = fbest([&](const D& y) { return k.f(g, {}, y); }, z, dz, 2e-3); double a = dot(gz, dz), b = fz.first; c.check(std::fabs(a - b) <= 2e-6 * std::max(sc, amax(gz)) + 10 * fz.second, k.kind + "-gradient-z", str(a, " expected ", b));
    auto fx = fbest([&](const D& y) { Geo h(g); h.xyz = y; return k.f(h, {}, z); }, g.xyz, dx, 1e-2); a = dot(gx, dx); b = fx.first; c.check(std::fabs(a - b) <= 2e-6 * std::max(sc, 0.05 * amax(gx)) + 10 * fx.second, k.kind + "-gradient-x", str(a, " expected ", b)); }
  f.updateProblem(Z); c.check(std::fabs(f.value(Z) - w) <= 1e-9 * sc, k.kind + "-value-after-update"); D z2 = ctrl(c.rng, g); double w2 = k.f(g, {}, z2); c.check(std::fabs(f.value(mk1(z2)) - w2) <= 1e-9 * std::max(1.0, std::fabs(w2)), k.kind + "-value-other-control"); }
static Crit volume(Gen& G) { Pen p = pen(G.r); Crit c; c.kind = "volume"; c.name = G.fresh("volume"); PL& l = G.list(c.name, "Scalar Function"); l.set("Scalar Function Type", std::string("Volume")); l.sublist("Penalty Function") = p.list(); c.f = [=](const Geo& g, const D&, const D& z) { double s = 0; for (int e = 0; e < g.ne(); ++e) { auto q = cell(g, e); s += q.vol * p(nodeAvg(q, z)); } return s; }; return c; }
SIM_GROUP(trees) { auto& r = c.rng; for (int it = 0; it < c.n(d == 2 ? 80 : 50, 800); ++it) { int nb = r.in(1, 3); Geo g = mesh(r, nb); std::vector<std::string> nm; PL p; D rho; for (int b = 0; b < nb; ++b) { nm.push_back(str("mat", b)); rho.push_back(1.0); PL& m = p.sublist("Material Models").sublist(nm[b]); if (r.coin(0.8)) { rho[b] = r.uni(0.2, 3); m.set("Density", rho[b]); } } p.sublist("Spatial Model") = spatial(g, nm);
    D z = ctrl(r, g); Gen G{r, p}; G.g = &g; G.z = z; G.leaf = [&](Gen& q) { return d == 3 && q.r.coin() ? massProps(q, rho) : volume(q); }; Crit k = G.tree(r.in(0, 3)); c.begin(str("tree ", g.desc, " root ", k.name, " z0 ", z[0]));
    Plato::DataMap dm; Plato::SpatialModel sm(g.mesh, g.sets, p); Plato::Geometric::ScalarFunctionBaseFactory<Phys> fac; auto f = fac.create(sm, dm, p, k.name); if (!c.check(f != nullptr, "criterion-created", k.name)) continue; c.check(f->name() == k.name, "criterion-name", f->name()); judge(c, *f, g, k, z); } }
SIM_GROUP(moments) { auto& r = c.rng; static const char* T[10] = {"Mass", "FirstX", "FirstY", "FirstZ", "SecondXX", "SecondYY", "SecondZZ", "SecondXY", "SecondXZ", "SecondYZ"}; static const int ij[10][2] = {{0, 0}, {0, 0}, {1, 1}, {2, 2}, {0, 0}, {1, 1}, {2, 2}, {0, 1}, {0, 2}, {1, 2}};
  for (int it = 0; it < c.n(60, 600); ++it) { int nb = r.in(1, 2), t = r.in(0, 9); if (ij[t][1] >= d) t = 0; Geo g = mesh(r, nb); std::vector<std::string> nm; PL p; D rho; for (int b = 0; b < nb; ++b) { nm.push_back(str("mat", b)); rho.push_back(r.uni(0.2, 3)); } p.sublist("Spatial Model") = spatial(g, nm); Plato::DataMap dm; Plato::SpatialModel sm(g.mesh, g.sets, p);
    Plato::Geometric::GeometryScalarFunction<Phys> f(sm, dm); int b = 0; for (auto& dom : sm.Domains) { std::string nm = dom.getDomainName(); auto a = std::make_shared<Plato::Geometric::MassMoment<typename Ev::Residual>>(dom, dm); auto x = std::make_shared<Plato::Geometric::MassMoment<typename Ev::GradientX>>(dom, dm); auto z = std::make_shared<Plato::Geometric::MassMoment<typename Ev::GradientZ>>(dom, dm); a->setMaterialDensity(rho[b]); x->setMaterialDensity(rho[b]); z->setMaterialDensity(rho[b]); a->setCalculationType(T[t]); x->setCalculationType(T[t]); z->setCalculationType(T[t]); f.setEvaluator(a, nm); f.setEvaluator(x, nm); f.setEvaluator(z, nm); ++b; }
    D z = ctrl(r, g); Crit k; k.kind = str("moment-", T[t]); k.f = [=](const Geo& g, const D&, const D& z) { Moments q = moments(g, z, rho); return t == 0 ? q.m : t < 4 ? q.f[t - 1] : q.s(ij[t][0], ij[t][1]); }; c.begin(str("moment ", T[t], " ", g.desc, " z0 ", z[0])); judge(c, f, g, k, z); } }
SIM_GROUP(rejections) { auto& r = c.rng; for (int it = 0; it < c.n(10, 60); ++it) { Geo g = mesh(r, 1); PL good; good.sublist("Material Models").sublist("mat0").set("Density", 0.5); good.sublist("Spatial Model") = spatial(g, {"mat0"}); D z = ctrl(r, g); { Gen G{r, good}; volume(G); }
    auto run = [&](PL p, std::string n) { Plato::DataMap dm; Plato::SpatialModel sm(g.mesh, g.sets, p); Plato::Geometric::ScalarFunctionBaseFactory<Phys> fac; auto f = fac.create(sm, dm, p, n); if (!f) throw std::runtime_error("none"); f->value(mk1(z)); };
    auto bad = [&](const std::string& what, const std::string& n, std::function<void(PL&)> m) { c.begin(str(what, " ", it)); PL p(good); m(p.sublist("Criteria")); c.rejects([&] { run(p, n); }, "refuses-" + what); };
    c.begin("valid"); c.accepts([&] { run(good, "volume 0"); }, "accepts-valid"); Teuchos::Array<std::string> two(2, std::string("volume 0"));
    bad("unknown-penalty", "volume 0", [](PL& l) { l.sublist("volume 0").sublist("Penalty Function").set("Type", std::string("Simp")); }); bad("missing-penalty-type", "volume 0", [](PL& l) { l.sublist("volume 0").remove("Penalty Function"); }); bad("unknown-scalar-function", "volume 0", [](PL& l) { l.sublist("volume 0").set("Scalar Function Type", std::string("Area")); }); bad("unknown-type", "volume 0", [](PL& l) { l.sublist("volume 0").set("Type", std::string("Sum")); }); bad("undefined-criterion", "nosuch", [](PL&) {});
    bad("weights-length", "s", [&](PL& l) { PL& s = l.sublist("s"); s.set("Type", std::string("Weighted Sum")); s.set("Functions", two); s.set("Weights", arr(D(r.coin() ? 1 : 3, 1.0))); }); bad("weights-length", "s", [&](PL& l) { PL& s = l.sublist("s"); s.set("Type", std::string("Least Squares")); s.set("Functions", two); s.set("Weights", arr(D(r.coin() ? 1 : 3, 1.0))); s.set("Gold Values", arr(D(2, 1.0))); });
    bad("gold-length", "s", [&](PL& l) { PL& s = l.sublist("s"); s.set("Type", std::string("Least Squares")); s.set("Functions", two); s.set("Weights", arr(D(2, 1.0))); s.set("Gold Values", arr(D(r.coin() ? 1 : 3, 1.0))); });
    bad("zero-denominator", "q", [&](PL& l) { PL& s = l.sublist("s"); s.set("Type", std::string("Weighted Sum")); s.set("Functions", two); s.set("Weights", arr(D{1, -1})); PL& q = l.sublist("q"); q.set("Type", std::string("Division")); q.set("Numerator", std::string("volume 0")); q.set("Denominator", std::string("s")); });
    if (d == 3) { auto mp = [&](std::vector<std::string> n, D w, D gv) { return [=](PL& l) { PL& s = l.sublist("m"); s.set("Type", std::string("Mass Properties")); Teuchos::Array<std::string> a; for (auto& x : n) a.push_back(x); s.set("Properties", a); s.set("Weights", arr(w)); s.set("Gold Values", arr(gv)); }; };
      bad("duplicate-property", "m", mp({"Mass", "CGx", "Mass"}, D(3, 1.0), D(3, 1.0))); bad("unknown-property", "m", mp({"Mass", "CGw"}, D(2, 1.0), D(2, 1.0))); bad("unknown-property-of-ten", "m", mp({"Mass", "CGx", "CGy", "CGz", "Ixx", "Iyy", "Izz", "Ixy", "Ixz", "Izy"}, D(10, 1.0), D(10, 1.0))); bad("property-weights-length", "m", mp({"Mass", "CGx"}, D(3, 1.0), D(2, 1.0))); bad("property-gold-length", "m", mp({"Mass", "CGx"}, D(2, 1.0), D(1, 1.0))); } } }
