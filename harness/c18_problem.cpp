// C18: steady problems.  The state returned satisfies the equations and the essential conditions, and the total derivatives of
// every criterion are those of re-solving the problem (checked against an independent solver and its differences).
#include "refsolve.hpp"
#include "Mechanics.hpp"
#include "Thermal.hpp"
#include "Electromechanics.hpp"
#include "Thermomechanics.hpp"
#include "elliptic/Problem.hpp"
using namespace refsolve;
static MPI_Comm world = MPI_COMM_WORLD; static Plato::Comm::Machine& machine() { static Plato::Comm::Machine m(world); return m; }
struct Quiet { std::streambuf* b; std::ostringstream s; Quiet() : b(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(b); } };
static D ctrl(Rng& r, const Geo& g) { D z = uni(r, g.nn(), 0.3, 1.0); if (r.coin(0.2)) for (auto& x : z) x = 1; return z; }
static Geo mesh(Rng& r, int blocks) { return box(r, d, 2, -1, true, blocks); }
static D row0(const Plato::ScalarMultiVector& s) { D v; for (size_t i = 0; i < s.extent(1); ++i) v.push_back(s(0, i)); return v; }
static bool uniform(const D& u, int nd) { for (size_t i = nd; i < u.size(); ++i) if (std::fabs(u[i] - u[i % nd]) > 1e-6) return false; return true; }
template <class Phys> static void run(Ctx& c, std::function<Model(Rng&, int)> mk, std::function<Crit(Gen&, const Model&, bool)> leaf, int n2, int n3) { auto& r = c.rng; for (int it = 0; it < c.n(d == 2 ? n2 : n3, 300); ++it) {
    int nb = r.in(1, 2); Geo g = mesh(r, nb); Model m = mk(r, nb); bool self = m.name == "mechanics" && r.coin(0.15), fixed = self || r.coin(0.6); if (self) { m = mechanics(r, d, nb, 0); for (auto& e : m.el) if (amax(e.e0) > 0) self = false; } const std::string& k = m.name; Pen pn = pen(r, m.name == "mechanics"); PL p; m.put(p, g); p.set("PDE Constraint", std::string("Elliptic")); p.sublist("Elliptic").sublist("Penalty Function") = pn.list(); std::vector<Load> ls; std::vector<Body> bs; genAllLoads(r, g, p, m, ls, bs, fixed);
    D z = ctrl(r, g), z2 = ctrl(r, g); Sol ref; ref.nl = m.nl; genBcs(r, g, p, m.nd, ref.bc, self); if (m.nl || r.coin(0.2)) { PL& q = p.sublist("Newton Iteration"); q.set("Maximum Iterations", 15); if (r.coin()) q.set("Increment Tolerance", 1e-13); if (r.coin()) q.set("Residual Tolerance", 1e-12); }
    Gen G{r, p}; G.g = &g; G.u = uni(r, g.nn() * m.nd, -0.5, 0.5); G.z = z; G.leaf = [&](Gen& q) { return leaf(q, m, true); }; Crit cr; if (self) { cr = leafOf(G, "Internal Elastic Energy", "elasticenergy", &pn, integral(m, [=](const Geo&, int, const Cell& q, const Fld& f, double z) { return 0.5 * q.vol * pn(z) * dot(f.at("stress"), f.at("strain")); })); p.set("Self-Adjoint", true); } else cr = G.tree(r.coin(0.7) ? 0 : 1);
    { PL& l = p.sublist("Criteria").sublist("lin vol"); l.set("Type", std::string("Scalar Function")); l.set("Scalar Function Type", std::string("Volume")); l.set("Linear", true); PL& f = l.sublist("Penalty Function"); f.set("Type", std::string("SIMP")); f.set("Exponent", 1.0); f.set("Minimum Value", 0.0); } int col = p.isSublist("Cell Problem Forcing") ? p.sublist("Cell Problem Forcing").get<int>("Column Index") : -1;
    ref.R = residual(m, pn, ls, bs, col); ref.setup(g.nn() * m.nd); c.begin(str(k, " ", cr.name, self ? " self-adjoint " : " ", g.desc, " bcs ", ref.bc.size(), " loads ", ls.size(), " body ", bs.size(), " z0 ", z[0])); if (!ref.solve(g, z)) { c.begin("skipped: no reference solution"); continue; } Sol ref2(ref); bool has2 = ref2.solve(g, z2);
    Quiet quiet; PL pp(p); Plato::Elliptic::Problem<Phys> P(g.mesh, g.sets, pp, machine()); P.readEssentialBoundaryConditions(pp); V1 Z = mk1(z);
    c.check(P.numNodes() == g.nn() && P.numCells() == g.ne() && P.numDofsPerNode() == m.nd && P.numNodesPerCell() == d + 1 && P.numDofsPerCell() == (d + 1) * m.nd && P.getNumSolutionDofs() == m.nd, k + "-sizes");
    auto judge = [&](const D& u, Sol& f, const D& z, const std::string& w) { if (!c.check(u.size() == f.u.size(), k + w + "-size")) return false; double e = 0; for (auto& q : f.bc) e = std::max(e, std::fabs(u[q.first] - q.second)); c.check(e <= 1e-9, k + w + "-essential-conditions", str(e)); D rr = f.res(g, u, z); c.check(amax(rr) <= 1e-8 * f.scale * std::max(1.0, amax(f.u)), k + w + "-equilibrium", str(amax(rr), " scale ", f.scale)); if (m.nl) return amax(rr) <= 1e-6 * f.scale; return near_(c, u, f.u, k + w + "-state", 1e-7, 1.0); };
    auto S = P.solution(Z); D u = row0(S.State); same(c, get(Z), z, k + "-control-untouched"); if (!judge(u, ref, z, "-solution")) continue; near_(c, row0(P.getGlobalSolution().State), u, k + "-global-solution", 0);
    if (r.coin(0.5) && has2) { P.solution(mk1(z2)); D v = row0(P.getGlobalSolution().State); judge(v, ref2, z2, "-second-solution"); Plato::ScalarMultiVector keep("keep", 1, u.size()); S = P.solution(Z); near_(c, row0(S.State), u, k + "-solution-history-free", 1e-9, 1e-9); }
    for (size_t i = 0; i < u.size(); ++i) if (m.nl) { ref.u[i] = u[i]; } // same branch
    Plato::ScalarMultiVector uu("u", 1, u.size()); for (size_t i = 0; i < u.size(); ++i) uu(0, i) = u[i]; Plato::Solution own(uu);
    double w = cr.f(g, u, z), sc = std::max(1.0, std::fabs(w)); if (!(std::fabs(w) < 1e4) || !G.regular(u, z) || uniform(u, m.nd)) continue; /* norms are not differentiable at rest */ bool ex = r.coin(); double v = ex ? P.criterionValue(Z, own, cr.name) : P.criterionValue(Z, cr.name); c.check(std::fabs(v - w) <= 1e-8 * sc, k + "-criterion-value", str(v, " expected ", w)); c.check(!P.criterionIsLinear(cr.name) && P.criterionIsLinear("lin vol"), k + "-criterion-kind");
    double vol = 0; for (int e = 0; e < g.ne(); ++e) { auto q = cell(g, e); vol += q.vol * nodeAvg(q, z); } (void)vol;
    int order = r.in(0, 1); for (int o = 0; o < 2; ++o) { bool X = (o == order); if (X && (!fixed || self)) continue; D gr = get(X ? (ex ? P.criterionGradientX(Z, own, cr.name) : P.criterionGradientX(Z, cr.name)) : (ex ? P.criterionGradient(Z, own, cr.name) : P.criterionGradient(Z, cr.name))); const char* nm = X ? "-total-gradient-x" : "-total-gradient-z"; if (!c.check((int)gr.size() == g.nn() * (X ? d : 1), k + nm + "-size")) continue;
      for (int t = 0; t < 2; ++t) { D dir = uni(r, gr.size()); if (t == 1) { std::fill(dir.begin(), dir.end(), 0.0); dir[r.in(0, dir.size() - 1)] = 1; } if (X) for (auto& x : dir) x *= 0.05; auto J = [&](const D& y) { if (X) { Geo h(g); h.xyz = y; return cr.f(h, ref.near(h, z), z); } return cr.f(g, ref.near(g, y), y); };
        auto be = fbest(J, X ? g.xyz : z, dir, X ? 1e-2 : 2e-3); double a = dot(gr, dir), mm = 0; for (size_t i = 0; i < gr.size(); ++i) mm = std::max(mm, std::fabs(gr[i] * dir[i])); if (std::isnan(be.first)) continue; c.check(std::fabs(a - be.first) <= 1e-5 * std::max(sc, mm) + 10 * be.second, k + (self ? "-self-adjoint" : "") + nm, str(a, " expected ", be.first, " spread ", be.second)); } }
    near_(c, row0(P.getGlobalSolution().State), u, k + "-state-after-gradients", 1e-12); near_(c, row0(uu), u, k + "-solution-untouched", 0); same(c, get(Z), z, k + "-control-untouched"); c.check(std::fabs(P.criterionValue(Z, cr.name) - v) <= 1e-12 * sc, k + "-criterion-after-gradients");
    { double a = P.criterionValue(Z, "lin vol"), e = 0; for (int q = 0; q < g.ne(); ++q) { auto y = cell(g, q); e += y.vol * nodeAvg(y, z); } c.check(std::fabs(a - e) <= 1e-10 * e, k + "-linear-criterion", str(a, " expected ", e)); D gz = get(P.criterionGradient(Z, "lin vol")), dz = uni(r, z.size()); D dd(z.size(), 0.0); for (int q = 0; q < g.ne(); ++q) { auto y = cell(g, q); for (int n : y.v) dd[n] += y.vol / (d + 1); } near_(c, gz, dd, k + "-linear-criterion-gradient", 1e-10); (void)dz; D gx = get(P.criterionGradientX(Z, "lin vol")), dx = uni(r, gx.size()); auto be = fbest([&](const D& y) { Geo h(g); h.xyz = y; double s = 0; for (int q = 0; q < h.ne(); ++q) { auto w = cell(h, q); s += w.vol * nodeAvg(w, z); } return s; }, g.xyz, dx, 1e-3); c.check(std::fabs(dot(gx, dx) - be.first) <= 1e-7 * std::max(1.0, amax(gx)) + 10 * be.second, k + "-linear-criterion-gradient-x"); } } }
SIM_GROUP(mechanics) { run<Plato::Mechanics<VDIM>>(c, [](Rng& r, int nb) { return phys::mechanics(r, d, nb); }, leafMechanics, 40, 10); }
SIM_GROUP(thermal) { run<Plato::Thermal<VDIM>>(c, [](Rng& r, int nb) { return phys::thermal(r, d, nb); }, leafThermal, 40, 10); }
SIM_GROUP(thermomechanics) { run<Plato::Thermomechanics<VDIM>>(c, [](Rng& r, int nb) { return phys::thermomechanics(r, d, nb); }, leafThermomechanics, 30, 8); }
SIM_GROUP(electromechanics) { run<Plato::Electromechanics<VDIM>>(c, [](Rng& r, int nb) { return phys::electromechanics(r, d, nb); }, leafElectromechanics, 30, 8); }
// essential conditions: every list gives exactly its node sets' dofs their values at the requested time, and invalid lists are refused
SIM_GROUP(essential) { auto& r = c.rng; using Phys = Plato::Thermomechanics<VDIM>; const int nd = d + 1; for (int it = 0; it < c.n(60, 1500); ++it) { Geo g = mesh(r, 1); PL l; D exp; std::vector<int> dofs; double t = r.coin(0.3) ? 0 : r.uni(0, 3); std::map<int, double> sf; for (int k = 0; k < nd; ++k) if (r.coin(0.4)) sf[k] = r.uni(0.5, 3); bool scaled = r.coin(); int n = r.in(0, 5); std::vector<std::string> names; for (int q = 0; q < n; ++q) { std::string set = "ns_" + r.pick(g.sides); int k = r.in(0, nd - 1); PL& b = l.sublist(str("bc ", q)); b.set("Sides", set); if (k > 0 || r.coin()) b.set("Index", k); double v = 0; int how = r.in(0, 3); if (how == 0) b.set("Type", std::string("Zero Value")); else if (how == 1) { b.set("Type", std::string(r.coin() ? "Fixed Value" : "Time Dependent")); b.set("Value", v = r.uni(-2, 2)); } else { double a = r.in(0, 8) / 4.0; b.set("Type", std::string(how == 2 ? "Fixed Value" : "Time Dependent")); b.set("Function", str(a, "*t*t - t + 0.5")); v = a * t * t - t + 0.5; } if (scaled && sf.count(k)) v /= sf[k]; for (int x : nodesOf(g, set)) { dofs.push_back(x * nd + k); exp.push_back(v); } }
    c.begin(str("essential ", n, " ", g.desc, " t ", t, " scaled ", scaled)); Plato::LocalOrdinalVector D_; Plato::ScalarVector V_; if (r.coin()) { D_ = Plato::LocalOrdinalVector("d", r.in(1, 40)); V_ = Plato::ScalarVector("v", D_.size()); } { std::map<Plato::OrdinalType, Plato::Scalar> m2(sf.begin(), sf.end()); if (scaled) Plato::EssentialBCs<Phys>(l, g.sets, m2).get(D_, V_, t); else if (t == 0 && r.coin()) Plato::EssentialBCs<Phys>(l, g.sets).get(D_, V_); else Plato::EssentialBCs<Phys>(l, g.sets).get(D_, V_, t); }
    if (!c.check(D_.size() == dofs.size() && V_.size() == dofs.size(), "essential-size", str(D_.size(), " vs ", dofs.size()))) continue; std::vector<std::pair<int, double>> a, b; for (size_t i = 0; i < dofs.size(); ++i) { a.push_back({D_(i), V_(i)}); b.push_back({dofs[i], exp[i]}); } std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); bool ok = true; for (size_t i = 0; i < a.size(); ++i) ok = ok && a[i].first == b[i].first && std::fabs(a[i].second - b[i].second) <= 1e-12; c.check(ok, "essential-dofs-and-values"); } }
SIM_GROUP(rejections) { auto& r = c.rng; for (int it = 0; it < c.n(4, 40); ++it) { Geo g = mesh(r, 1); Model m = phys::thermal(r, d, 1, 0); PL good; m.put(good, g); good.set("PDE Constraint", std::string("Elliptic")); good.sublist("Elliptic").sublist("Penalty Function") = pen(r).list(); PL& e = good.sublist("Essential Boundary Conditions").sublist("fix"); e.set("Type", std::string("Fixed Value")); e.set("Sides", std::string("ns_x0")); e.set("Value", 1.0); { PL& l = good.sublist("Criteria").sublist("k"); l.set("Type", std::string("Scalar Function")); l.set("Scalar Function Type", std::string("Internal Thermal Energy")); l.sublist("Penalty Function") = pen(r).list(); } D z = ctrl(r, g); Quiet quiet;
    using P_ = Plato::Elliptic::Problem<Plato::Thermal<VDIM>>; auto run = [&](PL p, std::string cr = "k") { P_ P(g.mesh, g.sets, p, machine()); P.readEssentialBoundaryConditions(p); V1 Z = mk1(z); P.solution(Z); P.criterionValue(Z, cr); P.criterionGradient(Z, cr); P.criterionGradientX(Z, cr); };
    auto bad = [&](const std::string& what, std::function<void(PL&)> f) { c.begin(str(what, " ", it)); PL p(good); f(p); c.rejects([&] { run(p); }, "refuses-" + what); }; auto fix = [](PL& p) -> PL& { return p.sublist("Essential Boundary Conditions").sublist("fix"); };
    c.begin("valid"); c.accepts([&] { run(good); }, "accepts-valid"); c.rejects([&] { run(good, "other"); }, "refuses-unknown-criterion"); c.rejects([&] { PL p(good); P_ P(g.mesh, g.sets, p, machine()); P.criterionGradient(mk1(z), "x"); }, "refuses-unknown-criterion"); c.rejects([&] { PL p(good); P_ P(g.mesh, g.sets, p, machine()); P.criterionGradientX(mk1(z), "x"); }, "refuses-unknown-criterion"); c.rejects([&] { PL p(good); P_ P(g.mesh, g.sets, p, machine()); P.setEssentialBoundaryConditions(Plato::LocalOrdinalVector("d", 2), Plato::ScalarVector("v", r.coin() ? 1 : 3)); }, "refuses-bc-length");
    bad("unknown-node-set", [&](PL& p) { fix(p).set("Sides", std::string("ns_w")); }); bad("missing-sides", [&](PL& p) { fix(p).remove("Sides"); }); bad("missing-bc-type", [&](PL& p) { fix(p).remove("Type"); }); bad("unknown-bc-type", [&](PL& p) { fix(p).set("Type", std::string("Fixed")); }); bad("value-and-function", [&](PL& p) { fix(p).set("Function", std::string("1")); }); bad("no-value", [&](PL& p) { fix(p).remove("Value"); }); bad("bc-not-a-list", [&](PL& p) { p.sublist("Essential Boundary Conditions").set("more", 1.0); }); bad("no-essential-conditions", [&](PL& p) { p.remove("Essential Boundary Conditions"); }); bad("bc-index-out-of-range", [&](PL& p) { fix(p).set("Index", r.coin() ? 1 : r.coin() ? -1 : 7); });
    bad("criterion-not-a-list", [&](PL& p) { p.sublist("Criteria").set("more", 1.0); }); bad("missing-pde", [&](PL& p) { p.remove("PDE Constraint"); }); bad("unknown-pde", [&](PL& p) { p.set("PDE Constraint", std::string("Parabolic2")); }); bad("unknown-solver-stack", [&](PL& p) { p.sublist("Linear Solver").set("Solver Stack", std::string("Petra")); }); bad("absent-solver-stack", [&](PL& p) { p.sublist("Linear Solver").set("Solver Stack", std::string(r.coin() ? "AmgX" : "Tpetra")); }); } }
