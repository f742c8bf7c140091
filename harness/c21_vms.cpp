// C21: stabilised (mixed displacement-pressure) problems.  The mixed residual and the projection of the pressure gradient, their
// derivatives, the staggered iteration between them, and total derivatives of criteria at its fixed point.
#include "refsolve.hpp"
#include "EllipticVMSProblem.hpp"
using namespace refsolve;
static MPI_Comm world = MPI_COMM_WORLD; static Plato::Comm::Machine& machine() { static Plato::Comm::Machine m(world); return m; }
struct Quiet { std::streambuf* b; std::ostringstream s; Quiet() : b(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(b); } };
static D ctrl(Rng& r, const Geo& g) { D z = uni(r, g.nn(), 0.3, 1.0); if (r.coin(0.2)) for (auto& x : z) x = 1; return z; }
struct Mt { M C; double s = 1, al = 0, T0 = 0, k = 0, sT = 1, K = 0, G = 0; };
struct Setup { bool th; int nb, nd; Geo g; Pen pn, pp; PL p; std::vector<Mt> mt; Model m; double S = 1; std::vector<Load> ls; std::vector<Body> bs; bool fixed; std::string k;
  Setup(Rng& r, bool th_, bool own = false) : th(th_), nb(r.in(1, 2)), nd(th_ ? d + 2 : d + 1), g(box(r, d, 2, -1, true, nb)), pn(pen(r)), pp(pen(r)), m(shell("vms", nd, nb)), fixed(r.coin(0.7)), k(th_ ? "thermo" : "mech") { if (r.coin()) S = r.uni(0.5, 2);
    for (int b = 0; b < nb; ++b) { Mt q; double E = r.uni(1, 3), nu = r.coin(0.2) ? r.uni(0.45, 0.4999) : r.uni(-0.1, 0.45); q.C = iso(d, E, nu); q.s = S; PL& l = m.lists[b].sublist(th ? "Isotropic Linear Thermoelastic" : "Isotropic Linear Elastic"); l.set("Youngs Modulus", E); l.set("Poissons Ratio", nu); if (own && !th && r.coin(0.3)) q.s = E / (3 * (1 - 2 * nu)); else if (own && r.coin(0.3)) l.set("Pressure Scaling", q.s = r.uni(0.5, 2)); else if (!th || S != 1 || r.coin()) l.set("Pressure Scaling", S);
      if (th) { l.set("Thermal Expansion Coefficient", q.al = r.uni(0.01, 0.4)); l.set("Thermal Conductivity Coefficient", q.k = r.uni(0.5, 2)); l.set("Reference Temperature", q.T0 = r.uni(-1, 1)); if (r.coin()) l.set("Temperature Scaling", q.sT = r.uni(0.5, 2)); }
      for (int j = 0; j < d; ++j) q.K += q.C(0, j) / d; q.G = q.C(d, d); mt.push_back(q); }
    m.put(p, g); if (S != 1) p.sublist("Material Models").set("Pressure Scaling", S); p.set("PDE Constraint", std::string("Elliptic")); p.sublist("Elliptic").sublist("Penalty Function") = pn.list(); p.sublist("State Gradient Projection").sublist("Penalty Function") = pp.list();
    genLoads(r, g, p, "Mechanical Natural Boundary Conditions", 0, d, -1, !fixed, ls); if (th) genLoads(r, g, p, "Thermal Natural Boundary Conditions", d + 1, 1, -1, false, ls); if (!fixed) genBody(r, p, nd, bs);
    auto mt_ = mt; int nb_ = nb, nd_ = nd; bool th2 = th; m.f = [=](const Geo& h, int e, const Cell& q, const D& u) { auto& w = mt_[h.blockOf[e] % nb_]; D s0 = strain(h, q, u, nd_), s = s0; double pr = 0, T = 0; for (int n : q.v) { pr += w.s * u[n * nd_ + d] / (d + 1); if (th2) T += u[n * nd_ + d + 1] / (d + 1); } if (th2) for (int i = 0; i < d; ++i) s[i] -= w.sT * w.al * (T - w.T0); D st = mulv(w.C, s); double t = 0, v = 0; for (int i = 0; i < d; ++i) { t += st[i] / d; v += s[i]; } for (int i = 0; i < d; ++i) st[i] -= t; D tot(st); for (int i = 0; i < d; ++i) tot[i] += pr; return Fld{{"strain", s0}, {"dev", st}, {"stress", tot}, {"vol", D{w.s * (v - pr / w.K)}}, {"pressure", D{pr}}}; }; } };
// residual with a given nodal projection of the pressure gradient
using ResN = std::function<D(const Geo&, const D&, const D&, const D&)>;
static ResN momentum(const Setup& s, const Geo* at = nullptr) { auto f = s.m.f; auto mt = s.mt; int nb = s.nb, nd = s.nd; bool th = s.th; Pen pn = s.pn; auto ls = s.ls; auto bs = s.bs; return [=](const Geo& h, const D& u, const D& pi, const D& z) { D R(h.nn() * nd, 0.0); for (int e = 0; e < h.ne(); ++e) { auto q = cell(h, e); auto& w = mt[h.blockOf[e] % nb]; Fld x = f(h, e, q, u); double c = pn(nodeAvg(q, z)) * q.vol; addStress(h, q, x["stress"], R, nd, 0, c); D gp = grad(h, q, u, nd, d), st(d); for (int i = 0; i < d; ++i) { double a = 0; for (int n : q.v) a += pi[n * d + i] / (d + 1); st[i] = w.s * std::pow(q.vol, 2.0 / 3.0) / (2 * w.G) * (w.s * gp[i] - a); } addFlux(h, q, st, R, nd, d, -c); for (int n : q.v) R[n * nd + d] += c * x["vol"][0] / (d + 1); if (th) { D gt = grad(h, q, u, nd, d + 1); for (auto& y : gt) y *= w.k * w.sT * w.sT; addFlux(h, q, gt, R, nd, d + 1, c); } } addLoads(h, ls, bs, z, R, nd, at); return R; }; }
// residual of the projection (consistent), of nodal vectors and nodal pressures
static ResN projection(const Setup& s) { Pen pp = s.pp; double S = s.S; return [=](const Geo& h, const D& pi, const D& pr, const D& z) { D R(h.nn() * d, 0.0); for (int e = 0; e < h.ne(); ++e) { auto q = cell(h, e); double c = pp(nodeAvg(q, z)) * q.vol / (d + 1); D gp = grad(h, q, pr, 1, 0); for (int i = 0; i < d; ++i) { double a = 0; for (int n : q.v) a += pi[n * d + i] / (d + 1); for (int n : q.v) R[n * d + i] += c * (a - S * gp[i]); } } return R; }; }
// lumped projection of a state's pressure gradient
static D lumped(const Setup& s, const Geo& h, const D& u, const D& z) { D N(h.nn() * d, 0.0), W(h.nn(), 0.0); for (int e = 0; e < h.ne(); ++e) { auto q = cell(h, e); double c = s.pp(nodeAvg(q, z)) * q.vol; D gp = grad(h, q, u, s.nd, d); for (int n : q.v) { W[n] += c; for (int i = 0; i < d; ++i) N[n * d + i] += c * s.S * gp[i]; } } for (int n = 0; n < h.nn(); ++n) for (int i = 0; i < d; ++i) N[n * d + i] /= W[n]; return N; }
static M blocks(const Plato::ScalarArray3D& w, const Geo& g, int ra, int rb) { M A(g.nn() * ra, g.nn() * rb); for (int e = 0; e < g.ne(); ++e) { auto q = cell(g, e); for (int a = 0; a <= d; ++a) for (int i = 0; i < ra; ++i) for (int b = 0; b <= d; ++b) for (int j = 0; j < rb; ++j) A(q.v[a] * ra + i, q.v[b] * rb + j) += w(e, a * ra + i, b * rb + j); } return A; }
template <class F> static void derivs(Ctx& c, F& fn, const Geo& g, const ResN& ref, const ResN& refX, const D& u, const D& n, const D& z, int nd, int nn, const std::string& k) { auto& r = c.rng; V1 U = mk1(u), Nn = mk1(n), Z = mk1(z); c.check(fn.size() == (int)u.size() && fn.numDofsPerNode() == nd && fn.numNodeStatePerNode() == nn && fn.numNodes() == g.nn() && fn.numCells() == g.ne(), k + "-sizes");
  D R = get(fn.value(U, Nn, Z)); near_(c, R, ref(g, u, n, z), k + "-residual", 1e-10); same(c, get(U), u, k + "-input-untouched"); same(c, get(Nn), n, k + "-input-untouched"); same(c, get(Z), z, k + "-input-untouched");
  M JU = dense(c, fn.gradient_u(U, Nn, Z), k + "-gu"), JT = dense(c, fn.gradient_u_T(U, Nn, Z), k + "-gut"), GN = dense(c, fn.gradient_n(U, Nn, Z), k + "-gn"), GNT = dense(c, fn.gradient_n_T(U, Nn, Z), k + "-gnt"), GZ = dense(c, fn.gradient_z(U, Nn, Z), k + "-gz"), GX = dense(c, fn.gradient_x(U, Nn, Z), k + "-gx"); int N = u.size(); if (!c.check(JU.r == N && JU.c == N && JT.r == N && GN.r == N && GN.c == (int)n.size() && GNT.r == (int)n.size() && GNT.c == N && GZ.r == g.nn() && GZ.c == N && GX.r == g.nn() * d && GX.c == N, k + "-shapes", str(GN.r, "x", GN.c, " for ", N, "x", n.size()))) return;
  near_(c, tr(JT).a, JU.a, k + "-transposed-jacobian", 1e-12); near_(c, tr(GNT).a, GN.a, k + "-transposed-node-jacobian", 1e-12); near_(c, blocks(fn.gradient_n_workset(U, Nn, Z), g, nd, nn).a, GN.a, k + "-node-workset", 1e-11); near_(c, blocks(fn.gradient_z_workset(U, Nn, Z), g, nd, 1).a, tr(GZ).a, k + "-control-workset", 1e-11); near_(c, blocks(fn.gradient_x_workset(U, Nn, Z), g, nd, d).a, tr(GX).a, k + "-shape-workset", 1e-11);
  for (int q = 0; q < 2; ++q) { D du = uni(r, N), dn = uni(r, n.size()), dz = uni(r, z.size()), dx = uni(r, g.xyz.size()); for (auto& x : dx) x *= 0.05;
    near_(c, mulv(JU, du), fdir([&](const D& y) { return ref(g, y, n, z); }, u, du, 1e-3), k + "-jac-u", 1e-7, amax(JU.a)); near_(c, mulv(GN, dn), fdir([&](const D& y) { return ref(g, u, y, z); }, n, dn, 1e-3), k + "-jac-n", 1e-7, amax(GN.a)); near_(c, mulv(tr(GZ), dz), fdir([&](const D& y) { return ref(g, u, n, y); }, z, dz, 1e-3), k + "-jac-z", 1e-7, amax(GZ.a)); near_(c, mulv(tr(GX), dx), fdir([&](const D& y) { Geo h(g); h.xyz = y; return refX(h, u, n, z); }, g.xyz, dx, 1e-2), k + "-jac-x", 1e-6, 0.05 * amax(GX.a)); }
  near_(c, get(fn.value(U, Nn, Z)), R, k + "-repeatable", 0); }
template <class Phys> static void functions(Ctx& c, bool th, int n2, int n3) { auto& r = c.rng; for (int it = 0; it < c.n(d == 2 ? n2 : n3, 300); ++it) { Setup s(r, th, true); Geo& g = s.g; std::vector<std::string> want; if (!th) { Teuchos::Array<std::string> pl; for (auto n : {"pressure", "deviatoric stress"}) if (r.coin()) { want.push_back(n); pl.push_back(n); } if (want.size()) s.p.sublist("Elliptic").set("Plottable", pl); } D u = uni(r, g.nn() * s.nd), pi = uni(r, g.nn() * d), pr = uni(r, g.nn()), z = ctrl(r, g); c.begin(str("functions ", s.k, " ", g.desc, " loads ", s.ls.size(), " bodies ", s.bs.size(), " scale ", s.S, " u0 ", u[0])); Quiet quiet; PL p(s.p); Plato::DataMap dm; Plato::SpatialModel sm(g.mesh, g.sets, p);
    { Plato::VectorFunctionVMS<Phys> F(sm, dm, p, "Elliptic"); derivs(c, F, g, momentum(s), momentum(s, &g), u, pi, z, s.nd, d, s.k + "-momentum"); F.value(mk1(u), mk1(pi), mk1(z)); for (auto& n : want) { D exp; for (int e = 0; e < g.ne(); ++e) { auto q = cell(g, e); D f = s.m.f(g, e, q, u).at(n == "pressure" ? n : "dev"); for (auto& x : f) exp.push_back(x * s.pn(nodeAvg(q, z))); } if (n == "pressure") { if (c.check(dm.scalarVectors.count(n) == 1, s.k + "-output-present")) near_(c, get(dm.scalarVectors.at(n)), exp, s.k + "-output-pressure", 1e-10, 1e-3); } else if (c.check(dm.scalarMultiVectors.count(n) == 1, s.k + "-output-present")) near_(c, get(dm.scalarMultiVectors.at(n)), exp, s.k + "-output-deviator", 1e-10, 1e-3); } }
    { Plato::VectorFunctionVMS<typename Phys::ProjectorT> F(sm, dm, p, "State Gradient Projection"); derivs(c, F, g, projection(s), projection(s), pi, pr, z, d, 1, s.k + "-projection"); } } }
SIM_GROUP(functions) { functions<Plato::StabilizedMechanics<VDIM>>(c, false, 40, 10); }
SIM_GROUP(thermofunctions) { functions<Plato::StabilizedThermomechanics<VDIM>>(c, true, 30, 8); }
// a uniform pressure gradient needs no stabilisation: the equations and the projection scale the pressure alike, also by default
template <class Phys> static void scaling(Ctx& c, bool th) { auto& r = c.rng; for (int it = 0; it < c.n(6, 100); ++it) { Setup s(r, th); Geo& g = s.g; bool def = r.coin() && s.nb == 1; if (def) { PL& l = s.p.sublist("Material Models"); if (l.isParameter("Pressure Scaling")) l.remove("Pressure Scaling"); PL& q = l.sublist("mat0").sublist(th ? "Isotropic Linear Thermoelastic" : "Isotropic Linear Elastic"); if (q.isParameter("Pressure Scaling")) q.remove("Pressure Scaling"); } D u = uni(r, g.nn() * s.nd), a = uni(r, d), z = ctrl(r, g); for (int n = 0; n < g.nn(); ++n) { u[n * s.nd + d] = 0.3; for (int i = 0; i < d; ++i) u[n * s.nd + d] += a[i] * g.xyz[n * d + i]; } D pr; for (int n = 0; n < g.nn(); ++n) pr.push_back(u[n * s.nd + d]); c.begin(str("scaling ", s.k, " default ", def, " ", g.desc, " scale ", s.S, " u0 ", u[0])); Quiet quiet; PL p(s.p); Plato::DataMap dm; Plato::SpatialModel sm(g.mesh, g.sets, p); Plato::VectorFunctionVMS<Phys> F(sm, dm, p, "Elliptic"); Plato::VectorFunctionVMS<typename Phys::ProjectorT> Q(sm, dm, p, "State Gradient Projection"); V1 pi = mk1(D(g.nn() * d, 0.0)), P = mk1(pr), Z = mk1(z); auto b = Q.value(pi, P, Z); auto J = Q.gradient_u(pi, P, Z); Plato::blas1::scale(-1.0, b); Plato::Solve::RowSummed<VDIM>(J, pi, b);
    D x = get(F.value(mk1(u), pi, Z)), y = get(F.value(mk1(u), mk1(D(g.nn() * d, 0.0)), Z)), gp(g.nn() * s.nd, 0.0); // with no projection, the whole stabilisation remains: take it off
    for (int e = 0; e < g.ne(); ++e) { auto q = cell(g, e); auto& w = s.mt[g.blockOf[e] % s.nb]; double sc = def ? 1.0 : w.s; if (def && !th) { double E = w.G * (3 * (w.C(0, 1)) + 2 * w.G) / (w.C(0, 1) + w.G), nu = w.C(0, 1) / (2 * (w.C(0, 1) + w.G)); sc = E / (3 * (1 - 2 * nu)); } D f(d); for (int i = 0; i < d; ++i) f[i] = sc * sc * a[i] * std::pow(q.vol, 2.0 / 3.0) / (2 * w.G); addFlux(g, q, f, gp, s.nd, d, s.pn(nodeAvg(q, z)) * q.vol); } for (size_t i = 0; i < y.size(); ++i) y[i] += gp[i]; near_(c, x, y, def && !th ? "mech-default-pressure-scaling" : s.k + "-consistent-pressure-scaling", 1e-9); } }
SIM_GROUP(scaling) { scaling<Plato::StabilizedMechanics<VDIM>>(c, false); scaling<Plato::StabilizedThermomechanics<VDIM>>(c, true); }
static std::vector<D> rows(const Plato::ScalarMultiVector& s) { std::vector<D> o; for (size_t i = 0; i < s.extent(0); ++i) { D a; for (size_t j = 0; j < s.extent(1); ++j) a.push_back(s(i, j)); o.push_back(a); } return o; }
static Crit leaf21(Gen& G, const Setup& s) { auto& r = G.r; if (s.th || r.coin(0.4)) return solution(G, s.m); Pen p = pen(r); return leafOf(G, "Internal Elastic Energy", "elasticenergy", &p, integral(s.m, [=](const Geo&, int, const Cell& q, const Fld& f, double z) { return q.vol * p(z) * dot(f.at("stress"), f.at("strain")); })); }
template <class Phys> static void problem(Ctx& c, bool th, int n2, int n3) { auto& r = c.rng; for (int it = 0; it < c.n(d == 2 ? n2 : n3, 200); ++it) { Setup s(r, th); Geo& g = s.g; PL& p = s.p; const std::string& k = s.k; bool conv = r.coin(0.6); int K = conv ? 32 : r.coin(0.4) ? 2 : r.in(1, 6), N = r.coin(0.6) ? 2 : r.in(2, 4); ResN R = momentum(s); Sol ref; genBcs(r, g, p, s.nd, ref.bc); PL& ts = p.sublist("Time Stepping"); ts.set("Number Time Steps", N); ts.set("Time Step", r.uni(0.1, 2)); if (K != 2 || r.coin()) p.sublist("Newton Iteration").set("Number Iterations", K);
    D z = ctrl(r, g), z2 = ctrl(r, g); Gen G{r, p}; G.g = &g; G.u = uni(r, g.nn() * s.nd * (N - 1), -0.5, 0.5); G.z = z; G.leaf = [&](Gen&) { return leaf21(G, s); }; Crit cr = G.tree(r.coin(0.6) ? 0 : 1); { PL& l = p.sublist("Criteria").sublist("lin vol"); l.set("Type", std::string("Scalar Function")); l.set("Scalar Function Type", std::string("Volume")); l.set("Linear", true); PL& f = l.sublist("Penalty Function"); f.set("Type", std::string("SIMP")); f.set("Exponent", 1.0); f.set("Minimum Value", 0.0); }
    c.begin(str("problem ", k, " ", cr.name, " ", g.desc, " steps ", N, " iterations ", K, " bcs ", ref.bc.size(), " loads ", s.ls.size(), " bodies ", s.bs.size(), " scale ", s.S, " z0 ", z[0]));
    D pi(g.nn() * d, 0.0); auto emu = [&](const D& zz, D& out, double& last) { Sol f(ref); D q(g.nn() * d, 0.0); for (int i = 0; i < K; ++i) { f.R = [&](const Geo& h, const D& u, const D& y) { return R(h, u, q, y); }; D before = f.u; if (i == 0) { f.setup(g.nn() * s.nd); before = f.u; if (!f.solve(g, zz)) return false; } else { f.u = f.near(g, zz); if (std::isnan(f.u[0])) return false; } last = 0; for (size_t j = 0; j < f.u.size(); ++j) last = std::max(last, std::fabs(f.u[j] - before[j])); q = lumped(s, g, f.u, zz); if (i == K - 1) out = f.u; if (last == 0 && i > 0) { out = f.u; break; } } return true; };
    D us, us2; double last = 1, l2 = 1; if (!emu(z, us, last) || amax(us) > 50) { c.begin("skipped: no reference solution"); continue; } bool has2 = emu(z2, us2, l2) && amax(us2) < 50;
    Quiet quiet; PL pp(p); Plato::EllipticVMSProblem<Phys> P(g.mesh, g.sets, pp, machine()); P.readEssentialBoundaryConditions(pp); V1 Z = mk1(z); c.check(P.getNumSolutionDofs() == s.nd, k + "-sizes");
    auto judge = [&](const std::vector<D>& U, const D& want, const std::string& w) { if (!c.check((int)U.size() == N && U[0].size() == want.size(), k + w + "-size")) return false; bool ok = c.check(amax(U[0]) == 0, k + w + "-initial-state"); for (int i = 1; i < N; ++i) { double e = 0; for (auto& q : ref.bc) e = std::max(e, std::fabs(U[i][q.first] - q.second)); ok = c.check(e <= 1e-9, k + w + "-essential-conditions", str(e)) && ok; ok = near_(c, U[i], want, k + w + "-state", 1e-6, 1.0, str("step ", i)) && ok; } return ok; };
    auto S = P.solution(Z); same(c, get(Z), z, k + "-control-untouched"); auto U = rows(S.State); if (!judge(U, us, "-solution")) continue;
    if (r.coin(0.4) && has2) { judge(rows(P.solution(mk1(z2)).State), us2, "-second-solution"); S = P.solution(Z); judge(rows(S.State), us, "-solution-history-free"); }
    D all; for (int i = 1; i < N; ++i) all.insert(all.end(), U[i].begin(), U[i].end()); double w = cr.f(g, all, z), sc = std::max(1.0, std::fabs(w)); if (!(std::fabs(w) < 1e4) || !G.regular(all, z)) continue; Plato::ScalarMultiVector uu("u", N, us.size()); for (int i = 0; i < N; ++i) for (size_t j = 0; j < us.size(); ++j) uu(i, j) = U[i][j]; Plato::Solution own(uu); bool ex = r.coin(); double v = ex ? P.criterionValue(Z, own, cr.name) : P.criterionValue(Z, cr.name); c.check(std::fabs(v - w) <= 1e-8 * sc, k + "-criterion-value", str(v, " expected ", w)); c.check(std::fabs(P.criterionValue(Z, "lin vol") - [&] { double e = 0; for (int q = 0; q < g.ne(); ++q) { auto y = cell(g, q); e += y.vol * nodeAvg(y, z); } return e; }()) <= 1e-10 * g.ne(), k + "-linear-criterion");
    if (!conv || last > 1e-9 * std::max(1.0, amax(us))) continue; // derivatives are those of the converged iteration
    Sol full(ref); full.R = [&](const Geo& h, const D& u, const D& y) { return R(h, u, lumped(s, h, u, y), y); }; full.setup(g.nn() * s.nd); if (!full.solve(g, z)) continue; near_(c, U[1], full.u, k + "-fixed-point", 1e-6, 1.0); auto rep = [&](const D& x) { D a; for (int i = 1; i < N; ++i) a.insert(a.end(), x.begin(), x.end()); return a; };
    int order = r.in(0, 1); for (int o = 0; o < 2; ++o) { bool X = o == order; if (X && !s.fixed) continue; D gr = get(X ? (ex ? P.criterionGradientX(Z, own, cr.name) : P.criterionGradientX(Z, cr.name)) : (ex ? P.criterionGradient(Z, own, cr.name) : P.criterionGradient(Z, cr.name))); const char* nm = X ? "-total-gradient-x" : "-total-gradient-z"; if (!c.check((int)gr.size() == g.nn() * (X ? d : 1), k + nm + "-size")) continue;
      for (int t = 0; t < 2; ++t) { D dir = uni(r, gr.size()); if (t == 1) { std::fill(dir.begin(), dir.end(), 0.0); dir[r.in(0, dir.size() - 1)] = 1; } if (X) for (auto& x : dir) x *= 0.05; auto J = [&](const D& y) { if (X) { Geo h(g); h.xyz = y; return cr.f(h, rep(full.near(h, z)), z); } return cr.f(g, rep(full.near(g, y)), y); };
        auto be = fbest(J, X ? g.xyz : z, dir, X ? 1e-2 : 2e-3); double a = dot(gr, dir), mm = 0; for (size_t i = 0; i < gr.size(); ++i) mm = std::max(mm, std::fabs(gr[i] * dir[i])); if (std::isnan(be.first)) continue; c.check(std::fabs(a - be.first) <= 2e-5 * std::max(sc, mm) + 10 * be.second, k + nm, str(a, " expected ", be.first, " spread ", be.second)); } }
    auto U3 = rows(P.getGlobalSolution().State); for (int i = 0; i < N; ++i) near_(c, U3[i], U[i], k + "-state-after-gradients", 1e-12, 1.0); same(c, get(Z), z, k + "-control-untouched"); c.check(std::fabs(P.criterionValue(Z, cr.name) - v) <= 1e-12 * sc, k + "-criterion-after-gradients"); } }
SIM_GROUP(problem) { problem<Plato::StabilizedMechanics<VDIM>>(c, false, 40, 10); }
SIM_GROUP(thermoproblem) { problem<Plato::StabilizedThermomechanics<VDIM>>(c, true, 30, 8); }
SIM_GROUP(rejections) { auto& r = c.rng; for (int it = 0; it < c.n(3, 30); ++it) { Setup s(r, false); Geo& g = s.g; PL good(s.p); std::map<int, double> bc; genBcs(r, g, good, s.nd, bc); good.sublist("Time Stepping").set("Number Time Steps", 2); good.sublist("Time Stepping").set("Time Step", 1.0); { PL& l = good.sublist("Criteria").sublist("k"); l.set("Type", std::string("Scalar Function")); l.set("Scalar Function Type", std::string("Internal Elastic Energy")); l.sublist("Penalty Function") = pen(r).list(); } D z = ctrl(r, g); Quiet quiet;
    using P_ = Plato::EllipticVMSProblem<Plato::StabilizedMechanics<VDIM>>; auto run = [&](PL p, std::string cr = "k") { P_ P(g.mesh, g.sets, p, machine()); P.readEssentialBoundaryConditions(p); V1 Z = mk1(z); P.solution(Z); P.criterionValue(Z, cr); P.criterionGradient(Z, cr); P.criterionGradientX(Z, cr); };
    auto bad = [&](const std::string& what, std::function<void(PL&)> f) { c.begin(str(what, " ", it)); PL p(good); f(p); c.rejects([&] { run(p); }, "refuses-" + what); }; auto crit = [](PL& p) -> PL& { return p.sublist("Criteria").sublist("k"); };
    c.begin("valid"); c.accepts([&] { run(good); }, "accepts-valid"); c.rejects([&] { run(good, "other"); }, "refuses-unknown-criterion");
    bad("no-essential-conditions", [&](PL& p) { p.remove("Essential Boundary Conditions"); }); bad("empty-essential-conditions", [&](PL& p) { p.remove("Essential Boundary Conditions"); p.sublist("Essential Boundary Conditions"); });
    bad("unknown-criterion-type", [&](PL& p) { crit(p).set("Type", std::string("Weighted")); }); bad("unknown-scalar-function", [&](PL& p) { crit(p).set("Scalar Function Type", std::string("Internal")); }); bad("unknown-criterion-penalty", [&](PL& p) { crit(p).sublist("Penalty Function").set("Type", std::string("S")); }); bad("unknown-penalty", [&](PL& p) { p.sublist("Elliptic").sublist("Penalty Function").set("Type", std::string("S")); }); bad("unknown-projection-penalty", [&](PL& p) { p.sublist("State Gradient Projection").sublist("Penalty Function").set("Type", std::string("S")); }); bad("unknown-pde", [&](PL& p) { p.set("PDE Constraint", std::string("Elliptic2")); }); bad("criterion-not-a-list", [&](PL& p) { p.sublist("Criteria").set("more", 1.0); }); bad("unknown-material", [&](PL& p) { p.sublist("Material Models").remove("mat0"); }); } }
