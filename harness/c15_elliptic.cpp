// C15: assembled steady-state equations.  The residual the product assembles is the finite element statement of the balance law
// (checked against an independent assembly), and every matrix it hands to the solver is that residual's derivative.
#include "loads.hpp"
#include "Mechanics.hpp"
#include "Thermal.hpp"
#include "Electromechanics.hpp"
#include "Thermomechanics.hpp"
#include "elliptic/VectorFunction.hpp"
using namespace sim; using namespace loads;
template <class Phys> struct Vf { Geo& g; PL p; Plato::DataMap dm; Plato::SpatialModel sm; std::string type; Plato::Elliptic::VectorFunction<Phys> f;
  Vf(Geo& g_, const PL& p_) : g(g_), p(p_), sm(g.mesh, g.sets, p), type("Elliptic"), f(sm, dm, p, type) {} };
using Ref = std::function<D(const Geo&, const D&, const D&, const Geo*)>;
using Fld = std::map<std::string, D>; using Out = std::function<Fld(const Geo&, int, const Cell&, const D&, const D&)>; // the fields of one cell, stresses and fluxes penalised
static void scale(D& v, double s) { for (auto& x : v) x *= s; }
static double mises(const D& s) { double a[6] = {s[0], s[1], 0, 0, 0, 0}; if (d == 3) for (int i = 0; i < 6; ++i) a[i] = s[i]; else a[5] = s[2]; return std::sqrt(0.5 * ((a[0] - a[1]) * (a[0] - a[1]) + (a[1] - a[2]) * (a[1] - a[2]) + (a[2] - a[0]) * (a[2] - a[0])) + 3 * (a[3] * a[3] + a[4] * a[4] + a[5] * a[5])); }
// the requested output fields, and only those, hold every cell's values at the evaluated state
static void outputs(Ctx& c, Plato::DataMap& dm, const Geo& g, const Out& out, const D& u, const D& z, const std::vector<std::string>& want, const std::string& k) {
  std::map<std::string, D> exp; for (int e = 0; e < g.ne(); ++e) { auto f = out(g, e, cell(g, e), u, z); for (auto& n : want) if (n == "Vonmises") exp[n].push_back(mises(f.at("stress"))); else for (double x : f.at(n)) exp[n].push_back(x); }
  c.check(dm.scalarVectors.size() + dm.scalarMultiVectors.size() == want.size(), k + "-outputs-set", str(dm.scalarVectors.size(), "+", dm.scalarMultiVectors.size(), " fields, wanted ", want.size()));
  for (auto& n : want) { D got; if (n == "Vonmises") { if (dm.scalarVectors.count(n)) got = get(dm.scalarVectors.at(n)); } else if (dm.scalarMultiVectors.count(n)) got = get(dm.scalarMultiVectors.at(n)); near_(c, got, exp[n], k + "-output-" + n, 1e-10, 1e-3); } }
template <class Phys> static void judge(Ctx& c, Geo& g, const PL& p0, int nd, const Ref& ref, const D& u, const D& z, int kind, const std::string& k, const Out& out, const std::vector<std::string>& names) {
  PL p(p0); std::vector<std::string> want; Teuchos::Array<std::string> pl; for (auto& n : names) if (c.rng.coin()) { want.push_back(n); pl.push_back(n); } if (!want.empty()) { p.sublist("Elliptic").set("Plottable", pl); if (k == "electromechanics") p.sublist("Electroelastostatics").set("Plottable", pl); }
  Vf<Phys> v(g, p); V1 U = mk1(u), Z = mk1(z); D u0 = u, z0 = z; int nn = g.nn();
  D R = get(v.f.value(U, Z)); near_(c, R, ref(g, u, z, nullptr), k + "-residual", 1e-10);
  same(c, get(U), u0, k + "-input-untouched"); same(c, get(Z), z0, k + "-input-untouched");
  outputs(c, v.dm, g, out, u, z, want, k);
  { D u1 = uni(c.rng, u.size()); v.f.value(mk1(u1), Z); outputs(c, v.dm, g, out, u1, z, want, k); }
  near_(c, get(v.f.value(U, Z)), R, k + "-repeatable", 0);
  M J = dense(c, v.f.gradient_u(U, Z), k + "-jac"), JT = dense(c, v.f.gradient_u_T(U, Z), k + "-jacT");
  c.check(J.r == nn * nd && J.c == nn * nd && JT.r == J.r && JT.c == J.c, k + "-jac-shape"); near_(c, tr(JT).a, J.a, k + "-jac-transpose", 1e-12);
  M GZ = dense(c, v.f.gradient_z(U, Z), k + "-gz"); c.check(GZ.r == nn && GZ.c == nn * nd, k + "-gz-shape", str(GZ.r, "x", GZ.c));
  M GX = dense(c, v.f.gradient_x(U, Z), k + "-gx"); c.check(GX.r == nn * d && GX.c == nn * nd, k + "-gx-shape", str(GX.r, "x", GX.c));
  for (int t = 0; t < 2; ++t) {
    D du = uni(c.rng, u.size()), dz = uni(c.rng, z.size()), dx = uni(c.rng, g.xyz.size()); for (auto& x : dx) x *= 0.05;
    near_(c, mulv(J, du), fdir([&](const D& y) { return ref(g, y, z, nullptr); }, u, du, 1e-3), k + "-jac-u", 1e-7, amax(J.a));
    near_(c, mulv(tr(GZ), dz), fdir([&](const D& y) { return ref(g, u, y, nullptr); }, z, dz, 1e-3), k + "-jac-z", 1e-7, amax(GZ.a));
    D got = mulv(tr(GX), dx); auto want = [&](const Geo* at) { return fdir([&](const D& y) { Geo h(g); h.xyz = y; return ref(h, u, z, at); }, g.xyz, dx, 1e-2); };
    D w = want(nullptr); double sc = std::max(0.05 * amax(GX.a), std::max(amax(got), amax(w))); auto off = [&](const D& a) { double m = 0; for (size_t i = 0; i < a.size(); ++i) m = std::max(m, std::fabs(a[i] - got[i])); return m; };
    if (off(w) <= 1e-6 * sc || kind == 0) near_(c, got, w, k + "-jac-x", 1e-6, sc);
    else if (off(want(&g)) <= 1e-6 * sc) c.check(false, str("shape-derivative-of-", kind == 1 ? "pressure-loads" : "body-loads"), "the configuration derivative omits the load's own dependence on the mesh");
    else near_(c, got, w, k + "-jac-x", 1e-6, sc); } }
static D ctrl(Rng& r, const Geo& g) { D z = uni(r, g.nn(), 0.2, 1.0); if (r.coin(0.2)) for (auto& x : z) x = 1; return z; }
static PL base(Rng& r, const Geo& g, const Pen& pn, const std::vector<std::string>& mats) { PL p; p.sublist("Elliptic").sublist("Penalty Function") = pn.list(); p.sublist("Spatial Model") = spatial(g, mats); (void)r; return p; }
// body loads and pressure normals are taken at the fixed mesh coordinates; the shape derivative of those loads is checked apart
static int loadsMove(const std::vector<Load>& l, const std::vector<Body>& b) { if (!b.empty()) return 2; for (auto& q : l) if (q.isP) return 1; return 0; }
static Geo mesh(Rng& r, int blocks) { return box(r, d, d == 2 ? 3 : 2, -1, true, blocks); }

SIM_GROUP(mechanics) { auto& r = c.rng; for (int it = 0; it < c.n(d == 2 ? 50 : 16, 600); ++it) {
    int nb = r.in(1, 2); Geo g = mesh(r, nb); Pen pn = pen(r, true); std::vector<Mat4> ms; std::vector<std::string> names; for (int b = 0; b < nb; ++b) { ms.push_back(elastic(r, d)); names.push_back(str("mat", b)); }
    PL p = base(r, g, pn, names); for (int b = 0; b < nb; ++b) p.sublist("Material Models").sublist(names[b]) = ms[b].list;
    std::vector<Load> ls; std::vector<Body> bs; genLoads(r, g, p, "Natural Boundary Conditions", 0, d, -1, true, ls); genBody(r, p, d, bs); int col = -1; if (r.coin(0.3)) { col = r.in(0, nvoigt(d) - 1); p.sublist("Cell Problem Forcing").set("Column Index", col); }
    D u = uni(r, g.nn() * d), z = ctrl(r, g); c.begin(str("mechanics ", g.desc, " ", ms[0].family, " pen ", pn.type, " loads ", ls.size(), " body ", bs.size(), " col ", col, " u0 ", u[0]));
    Out out = [&](const Geo& h, int e, const Cell& q, const D& u, const D& z) { auto& m = ms[h.blockOf[e] % nb]; D s0 = strain(h, q, u, d), s = s0; for (size_t i = 0; i < s.size(); ++i) s[i] -= m.e0[i]; D t = mulv(m.C, s); if (col >= 0) for (size_t i = 0; i < t.size(); ++i) t[i] -= m.C(i, col); scale(t, pn(nodeAvg(q, z))); return Fld{{"strain", s0}, {"stress", t}}; };
    Ref ref = [&](const Geo& h, const D& u, const D& z, const Geo* at0) { D R(h.nn() * d, 0.0); for (int e = 0; e < h.ne(); ++e) { auto q = cell(h, e); addStress(h, q, out(h, e, q, u, z)["stress"], R, d, 0, q.vol); } addLoads(h, ls, bs, z, R, d, at0); return R; };
    judge<Plato::Mechanics<VDIM>>(c, g, p, d, ref, u, z, loadsMove(ls, bs), "mechanics", out, {"strain", "stress", "Vonmises"}); } }

static void randTens(Rng& r, PL& p, const std::string& nm, bool nl, std::vector<M>& k, double lo) { k.assign(3, M(d, d)); if (!nl && r.coin(0.4)) { double v = r.uni(lo, lo + 1); p.set(nm, v); for (int i = 0; i < d; ++i) k[0](i, i) = v; return; } PL& s = p.sublist(nm);
  for (int q = 0; q < (nl ? 3 : 1); ++q) { std::string pre = nl ? str("c", q) : "c"; double f = q == 0 ? 1 : q == 1 ? 0.3 : 0.1; for (int i = 0; i < d; ++i) { double v = f * r.uni(lo, lo + 1); s.set(str(pre, i + 1, i + 1), v); k[q](i, i) = v; for (int j = i + 1; j < d; ++j) if (r.coin()) { double o = f * r.uni(-0.3, 0.3); s.set(str(pre, i + 1, j + 1), o); k[q](i, j) = k[q](j, i) = o; } } } if (nl) p.set("Temperature Dependent", true); }
static M at(const std::vector<M>& k, double T) { M m(k[0]); for (size_t i = 0; i < m.a.size(); ++i) m.a[i] += k[1].a[i] * T + k[2].a[i] * T * T; return m; }

SIM_GROUP(thermal) { auto& r = c.rng; for (int it = 0; it < c.n(d == 2 ? 50 : 16, 600); ++it) {
    int nb = r.in(1, 2); Geo g = mesh(r, nb); Pen pn = pen(r); std::vector<std::vector<M>> ks(nb); std::vector<std::string> names; for (int b = 0; b < nb; ++b) names.push_back(str("mat", b)); PL p = base(r, g, pn, names); bool nl = false;
    for (int b = 0; b < nb; ++b) { bool n = r.coin(); nl = nl || n; randTens(r, p.sublist("Material Models").sublist(names[b]).sublist("Thermal Conduction"), "Thermal Conductivity", n, ks[b], 0.5); }
    std::vector<Load> ls; std::vector<Body> bs; genLoads(r, g, p, "Natural Boundary Conditions", 0, 1, 1, false, ls); genBody(r, p, 1, bs); D u = uni(r, g.nn()), z = ctrl(r, g); c.begin(str("thermal ", g.desc, " nl ", nl, " pen ", pn.type, " loads ", ls.size(), " body ", bs.size(), " u0 ", u[0]));
    Out out = [&](const Geo& h, int e, const Cell& q, const D& u, const D& z) { D tg = grad(h, q, u, 1, 0), f = mulv(at(ks[h.blockOf[e] % nb], nodeAvg(q, u)), tg); scale(f, -pn(nodeAvg(q, z))); return Fld{{"tgrad", tg}, {"flux", f}}; };
    Ref ref = [&](const Geo& h, const D& u, const D& z, const Geo* at0) { D R(h.nn(), 0.0); for (int e = 0; e < h.ne(); ++e) { auto q = cell(h, e); addFlux(h, q, out(h, e, q, u, z)["flux"], R, 1, 0, -q.vol); } addLoads(h, ls, bs, z, R, 1, at0); return R; };
    judge<Plato::Thermal<VDIM>>(c, g, p, 1, ref, u, z, loadsMove(ls, bs), "thermal", out, {"tgrad", "flux"}); } }

SIM_GROUP(thermomechanics) { auto& r = c.rng; const int nd = d + 1; for (int it = 0; it < c.n(d == 2 ? 40 : 12, 500); ++it) {
    int nb = r.in(1, 2); Geo g = mesh(r, nb); Pen pn = pen(r, true); std::vector<std::string> names; for (int b = 0; b < nb; ++b) names.push_back(str("mat", b)); PL p = base(r, g, pn, names); bool nl = r.coin();
    struct TM { M C[3]; std::vector<M> al, k; double s = 1, T0 = 23; }; std::vector<TM> ms(nb); for (int b = 0; b < nb; ++b) { TM& m = ms[b]; PL& l = p.sublist("Material Models").sublist(names[b]).sublist("Thermoelastic"); double nu = r.uni(-0.2, 0.4), E[3] = {r.uni(1, 3), nl ? r.uni(0, 0.3) : 0, nl ? r.uni(0, 0.1) : 0}; PL& es = l.sublist("Elastic Stiffness"); es.set("Poissons Ratio", nu); if (nl) { es.sublist("Youngs Modulus").set("c0", E[0]); es.sublist("Youngs Modulus").set("c1", E[1]); es.sublist("Youngs Modulus").set("c2", E[2]); } else es.set("Youngs Modulus", E[0]); for (int q = 0; q < 3; ++q) m.C[q] = iso(d, E[q], nu);
      randTens(r, l, "Thermal Conductivity", nl, m.k, 0.5); m.al.assign(3, M(d, d)); double a = r.uni(0.01, 0.5); l.set("Thermal Expansivity", a); for (int i = 0; i < d; ++i) m.al[0](i, i) = a; if (r.coin()) { m.T0 = r.uni(-1, 1); l.set("Reference Temperature", m.T0); } if (r.coin()) { m.s = r.uni(0.5, 2); l.set("Temperature Scaling", m.s); } if (nl) l.set("Temperature Dependent", true); }
    std::vector<Load> ls; std::vector<Body> bs; genLoads(r, g, p, "Mechanical Natural Boundary Conditions", 0, d, -1, true, ls); genLoads(r, g, p, "Thermal Natural Boundary Conditions", d, 1, -1, false, ls); genBody(r, p, nd, bs); D u = uni(r, g.nn() * nd), z = ctrl(r, g); c.begin(str("thermomechanics ", g.desc, " nl ", nl, " pen ", pn.type, " loads ", ls.size(), " body ", bs.size(), " u0 ", u[0]));
    Out out = [&](const Geo& h, int e, const Cell& q, const D& u, const D& z) { auto& m = ms[h.blockOf[e] % nb]; double t = 0, w = pn(nodeAvg(q, z)); for (int v : q.v) t += u[v * nd + d] / (d + 1); D s0 = strain(h, q, u, nd), s = s0; M al = at(m.al, t); for (int i = 0; i < d; ++i) s[i] -= m.s * al(i, i) * (t - m.T0);
        M C(m.C[0]); for (size_t i = 0; i < C.a.size(); ++i) C.a[i] += m.C[1].a[i] * t + m.C[2].a[i] * t * t; D st = mulv(C, s), tg = grad(h, q, u, nd, d), f = mulv(at(m.k, t), tg); scale(st, w); scale(f, m.s * m.s * w); return Fld{{"strain", s0}, {"stress", st}, {"tgrad", tg}, {"flux", f}}; };
    Ref ref = [&](const Geo& h, const D& u, const D& z, const Geo* at0) { D R(h.nn() * nd, 0.0); for (int e = 0; e < h.ne(); ++e) { auto q = cell(h, e); auto f = out(h, e, q, u, z); addStress(h, q, f["stress"], R, nd, 0, q.vol); addFlux(h, q, f["flux"], R, nd, d, q.vol); } addLoads(h, ls, bs, z, R, nd, at0); return R; };
    judge<Plato::Thermomechanics<VDIM>>(c, g, p, nd, ref, u, z, loadsMove(ls, bs), "thermomechanics", out, {"strain", "stress", "tgrad", "flux"}); } }

SIM_GROUP(electromechanics) { auto& r = c.rng; const int nd = d + 1; for (int it = 0; it < c.n(d == 2 ? 40 : 12, 500); ++it) {
    int nb = r.in(1, 2); Geo g = mesh(r, nb); Pen pn = pen(r); std::vector<std::string> names; for (int b = 0; b < nb; ++b) names.push_back(str("mat", b)); PL p = base(r, g, pn, names); struct EM { M C, e, P; double a = 1; }; std::vector<EM> ms(nb);
    for (int b = 0; b < nb; ++b) { EM& m = ms[b]; PL& l = p.sublist("Material Models").sublist(names[b]).sublist("Isotropic Linear Electroelastic"); double E = r.uni(1, 3), nu = r.uni(-0.2, 0.4), e15 = r.uni(-1, 1), e31 = r.uni(-1, 1), e33 = r.uni(-1, 1), p11 = r.uni(0.5, 2), p33 = r.uni(0.5, 2); l.set("Youngs Modulus", E); l.set("Poissons Ratio", nu); l.set("e15", e15); l.set("e31", e31); l.set("e33", e33); l.set("p11", p11); l.set("p33", p33); if (r.coin()) { m.a = r.uni(0.5, 2); l.set("Alpha", m.a); }
      m.C = iso(d, E, nu); m.e = M(d, nvoigt(d)); m.P = M(d, d); for (int i = 0; i + 1 < d; ++i) { m.P(i, i) = p11; m.e(d - 1, i) = e31; } m.P(d - 1, d - 1) = p33; m.e(d - 1, d - 1) = e33; for (int k = d; k < nvoigt(d); ++k) { auto q = vij(d, k); if (q.second == d - 1) m.e(q.first, k) = e15; } }
    std::vector<Load> ls; std::vector<Body> bs; genLoads(r, g, p, "Mechanical Natural Boundary Conditions", 0, d, -1, true, ls); genLoads(r, g, p, "Electrical Natural Boundary Conditions", d, 1, -1, false, ls); genBody(r, p, nd, bs); D u = uni(r, g.nn() * nd), z = ctrl(r, g); c.begin(str("electromechanics ", g.desc, " alpha ", ms[0].a, " pen ", pn.type, " loads ", ls.size(), " body ", bs.size(), " u0 ", u[0]));
    Out out = [&](const Geo& h, int e, const Cell& q, const D& u, const D& z) { auto& m = ms[h.blockOf[e] % nb]; double w = pn(nodeAvg(q, z)); D s = strain(h, q, u, nd), E = grad(h, q, u, nd, d); for (auto& x : E) x = -x; D t = mulv(m.C, s), t2 = mulv(tr(m.e), E); for (size_t i = 0; i < t.size(); ++i) t[i] -= m.a * t2[i]; D f = mulv(m.P, E), f2 = mulv(m.e, s); for (size_t i = 0; i < f.size(); ++i) f[i] = m.a * m.a * f[i] + m.a * f2[i]; scale(t, w); scale(f, w); return Fld{{"strain", s}, {"efield", E}, {"stress", t}, {"edisp", f}}; };
    Ref ref = [&](const Geo& h, const D& u, const D& z, const Geo* at0) { D R(h.nn() * nd, 0.0); for (int e = 0; e < h.ne(); ++e) { auto q = cell(h, e); auto f = out(h, e, q, u, z); addStress(h, q, f["stress"], R, nd, 0, q.vol); addFlux(h, q, f["edisp"], R, nd, d, q.vol); } addLoads(h, ls, bs, z, R, nd, at0); return R; };
    judge<Plato::Electromechanics<VDIM>>(c, g, p, nd, ref, u, z, loadsMove(ls, bs), "electromechanics", out, {"strain", "stress", "efield", "edisp"}); } }

// invalid input is refused when the equations are built or first evaluated, never computed with
SIM_GROUP(rejections) { auto& r = c.rng; for (int it = 0; it < c.n(4, 40); ++it) {
    Geo g = mesh(r, 1); Pen pn = pen(r, true); Mat4 m = elastic(r, d, 0); PL good = base(r, g, pn, {"mat0"}); good.sublist("Material Models").sublist("mat0") = m.list; D u = uni(r, g.nn() * (d + 1)), z = ctrl(r, g);
    PL gt = base(r, g, pn, {"mat0"}); { PL& l = gt.sublist("Material Models").sublist("mat0").sublist("Thermoelastic"); l.sublist("Elastic Stiffness").set("Youngs Modulus", 1.0); l.sublist("Elastic Stiffness").set("Poissons Ratio", 0.3); l.set("Thermal Conductivity", 1.0); l.set("Thermal Expansivity", 0.1); }
    auto mech = [&](PL p) { D um(u.begin(), u.begin() + g.nn() * d); Vf<Plato::Mechanics<VDIM>> v(g, p); v.f.value(mk1(um), mk1(z)); };
    auto tm = [&](PL p) { Vf<Plato::Thermomechanics<VDIM>> v(g, p); v.f.value(mk1(u), mk1(z)); };
    auto try_ = [&](const std::string& what, std::function<void(PL&)> mod) { c.begin(str(what, " ", it)); PL p(good); mod(p); c.rejects([&] { mech(p); }, "refuses-" + what); };
    auto tryT = [&](const std::string& what, std::function<void(PL&)> mod) { c.begin(str(what, " thermomechanics ", it)); PL p(gt); mod(p); c.rejects([&] { tm(p); }, "refuses-" + what); };
    c.begin("valid"); c.accepts([&] { mech(good); }, "accepts-valid"); c.accepts([&] { tm(gt); }, "accepts-valid");
    auto bad = [&](PL& p) { p.sublist("Elliptic").sublist("Penalty Function").set("Type", std::string("Simp")); }; try_("unknown-penalty", bad); tryT("unknown-penalty", bad);
    auto mat = [&](PL& p) { p.sublist("Spatial Model").sublist("Domains").sublist("Design Volume").set("Material Model", std::string("mat1")); }; try_("unknown-material", mat); tryT("unknown-material", mat);
    try_("unknown-block", [&](PL& p) { p.sublist("Spatial Model").sublist("Domains").sublist("Design Volume").set("Element Block", std::string("nosuch")); });
    auto nbc = [&](const std::string& list, std::function<void(PL&)> f) { return [=](PL& p) { PL& l = p.sublist(list).sublist("bc"); l.set("Sides", std::string("ss_x0")); l.set("Type", std::string("Uniform")); f(l); }; };
    const std::string N = "Natural Boundary Conditions", T = "Thermal Natural Boundary Conditions", Q = "Mechanical Natural Boundary Conditions";
    try_("load-without-value", nbc(N, [](PL&) {})); try_("load-with-value-and-values", nbc(N, [](PL& l) { l.set("Value", 1.0); l.set("Values", arr(D(d, 1.0))); }));
    try_("load-with-too-few-values", nbc(N, [](PL& l) { l.set("Values", arr(D(d - 1, 1.0))); })); try_("load-with-too-few-values", nbc(N, [](PL& l) { Teuchos::Array<std::string> a; for (int i = 1; i < d; ++i) a.push_back("1"); l.set("Values", a); }));
    try_("load-index-out-of-range", nbc(N, [&](PL& l) { l.set("Value", 1.0); l.set("Index", r.coin() ? d : -1); })); tryT("load-index-out-of-range", nbc(T, [&](PL& l) { l.set("Value", 1.0); l.set("Index", 1); })); tryT("load-index-out-of-range", nbc(Q, [&](PL& l) { l.set("Value", 1.0); l.set("Index", d); }));
    tryT("load-component-out-of-range", nbc(T, [](PL& l) { l.set("Type", std::string("Uniform Component")); l.set("Value", 1.0); l.set("Component", std::string("y")); }));
    try_("load-component-out-of-range", nbc(N, [](PL& l) { l.set("Type", std::string("Uniform Component")); l.set("Value", 1.0); l.set("Component", std::string(d == 2 ? "z" : "w")); }));
    try_("load-component-missing", nbc(N, [](PL& l) { l.set("Type", std::string("Uniform Component")); l.set("Value", 1.0); })); try_("pressure-without-value", nbc(N, [](PL& l) { l.set("Type", std::string("Uniform Pressure")); }));
    try_("unknown-load-type", nbc(N, [](PL& l) { l.set("Type", std::string("Linear")); l.set("Value", 1.0); })); try_("unknown-side-set", nbc(N, [](PL& l) { l.set("Sides", std::string("nosuch")); l.set("Value", 1.0); }));
    try_("load-without-type", [&](PL& p) { p.sublist(N).sublist("bc").set("Sides", std::string("ss_x0")); p.sublist(N).sublist("bc").set("Value", 1.0); }); try_("load-that-is-not-a-list", [&](PL& p) { p.sublist(N).set("bc", 1.0); });
    try_("body-load-index-out-of-range", [&](PL& p) { PL& b = p.sublist("Body Loads").sublist("b"); b.set("Index", r.coin() ? d : -1); b.set("Function", std::string("1.0")); }); tryT("body-load-index-out-of-range", [&](PL& p) { PL& b = p.sublist("Body Loads").sublist("b"); b.set("Index", d + 1); b.set("Function", std::string("1.0")); });
    try_("body-load-without-function", [&](PL& p) { p.sublist("Body Loads").sublist("b").set("Index", 0); }); } }
