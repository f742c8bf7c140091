// C19: transient heat conduction and thermomechanics.  The time-discrete equations, their derivatives, the march through time and
// the total derivatives of criteria over the whole history.
#include "refsolve.hpp"
#include "Thermal.hpp"
#include "Thermomechanics.hpp"
#include "parabolic/Problem.hpp"
using namespace refsolve;
static MPI_Comm world = MPI_COMM_WORLD; static Plato::Comm::Machine& machine() { static Plato::Comm::Machine m(world); return m; }
struct Quiet { std::streambuf* b; std::ostringstream s; Quiet() : b(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(b); } };
static D ctrl(Rng& r, const Geo& g) { D z = uni(r, g.nn(), 0.3, 1.0); if (r.coin(0.2)) for (auto& x : z) x = 1; return z; }
static Model thermalT(Rng& r, int nb) { Model m = phys::thermal(r, d, nb); heatMass(r, m); return m; }
static Model thermomechT(Rng& r, int nb) { Model m = phys::thermomechanics(r, d, nb); heatMass(r, m); return m; }
// conduction, equilibrium, storage and boundary loads at one instant
using Res2 = std::function<D(const Geo&, const D&, const D&, const D&)>;
static Res2 residual2(const Model& m, const Pen& pn, const std::vector<Load>& ls) { auto R0 = residual(m, pn, ls, {}, -1); int nd = m.nd; return [=](const Geo& h, const D& u, const D& v, const D& z) { D R = R0(h, u, z); for (int e = 0; e < h.ne(); ++e) { auto q = cell(h, e); double T = 0, V = 0; for (int n : q.v) { T += u[n * nd + nd - 1] / (d + 1); V += v[n * nd + nd - 1] / (d + 1); } double s = pn(nodeAvg(q, z)) * m.cap(h.blockOf[e], T) * V * q.vol / (d + 1); for (int n : q.v) R[n * nd + nd - 1] += s; } return R; }; }
static Crit leafThermalT(Gen& G, const Model& m) { auto& r = G.r; Pen p = pen(r); if (r.coin()) return leafOf(G, "Internal Thermal Energy", "thermalenergy", &p, integral(m, [=](const Geo&, int, const Cell& q, const Fld& f, double z) { return -q.vol * p(z) * dot(f.at("flux"), f.at("tgrad")); }));
  return leafOf(G, "Temperature Average", "temperatureaverage", &p, [=](const Geo& g, const D& u, const D& z) { double s = 0; int n = g.nn(); for (size_t k = 0; k * n < u.size(); ++k) for (int e = 0; e < g.ne(); ++e) { auto q = cell(g, e); double T = 0; for (int v : q.v) T += u[k * n + v] / (d + 1); s += q.vol * p(nodeAvg(q, z)) * T; } return s; }); }
static Crit leafThermomechT(Gen& G, const Model& m) { Pen p = pen(G.r); return leafOf(G, "Internal Thermoelastic Energy", "thermoelasticenergy", &p, integral(m, [=](const Geo&, int, const Cell& q, const Fld& f, double z) { return q.vol * p(z) * (dot(f.at("stress"), f.at("strain")) + dot(f.at("flux"), f.at("tgrad"))); })); }
using Leaf = std::function<Crit(Gen&, const Model&)>;
struct Setup { int nb; Geo g; Model m; Pen pn; PL p; std::vector<Load> ls; Setup(Rng& r, std::function<Model(Rng&, int)> mk) : nb(r.in(1, 2)), g(box(r, d, 2, -1, true, nb)), m(mk(r, nb)), pn(pen(r)) { m.put(p, g); p.set("PDE Constraint", std::string("Parabolic")); p.sublist("Parabolic").sublist("Penalty Function") = pn.list(); std::vector<Body> bs; genAllLoads(r, g, p, m, ls, bs, true); } };
template <class Phys> static void functions(Ctx& c, std::function<Model(Rng&, int)> mk, Leaf leaf, int n2, int n3) { auto& r = c.rng; for (int it = 0; it < c.n(d == 2 ? n2 : n3, 400); ++it) { Setup s(r, mk); Geo& g = s.g; int nd = s.m.nd; std::string k = s.m.name; Gen G{r, s.p}; G.g = &g; Crit cr = leaf(G, s.m);
    std::vector<std::string> want; if (k == "thermomechanics") { Teuchos::Array<std::string> pl; for (auto n : {"strain", "stress"}) if (r.coin()) { want.push_back(n); pl.push_back(n); } if (want.size()) s.p.sublist("Parabolic").set("Plottable", pl); }
    D u = uni(r, g.nn() * nd), v = uni(r, u.size()), z = ctrl(r, g); c.begin(str("functions ", k, " ", g.desc, " nl ", s.m.nl, " loads ", s.ls.size(), " ", cr.kind, " u0 ", u[0])); PL p(s.p); Plato::DataMap dm; Plato::SpatialModel sm(g.mesh, g.sets, p); std::string type("Parabolic"); Plato::Parabolic::VectorFunction<Phys> F(sm, dm, p, type); Res2 ref = residual2(s.m, s.pn, s.ls); V1 U = mk1(u), V = mk1(v), Z = mk1(z); double dt = r.uni(0.1, 2);
    c.check(F.size() == (int)u.size(), k + "-size"); { auto names = F.getDofNames(); c.check((int)names.size() == nd, k + "-dof-names", str(names.size(), " names for ", nd, " dofs")); }
    D R = get(F.value(U, V, Z, dt)); near_(c, R, ref(g, u, v, z), k + "-residual", 1e-10); same(c, get(U), u, k + "-input-untouched"); same(c, get(V), v, k + "-input-untouched"); same(c, get(Z), z, k + "-input-untouched");
    for (auto& n : want) { D exp; for (int e = 0; e < g.ne(); ++e) { auto q = cell(g, e); D f = s.m.f(g, e, q, u).at(n); for (double x : f) exp.push_back(n == "stress" ? x * s.pn(nodeAvg(q, z)) : x); } if (!c.check(dm.scalarMultiVectors.count(n) == 1, k + "-output-" + n + "-present")) continue; near_(c, get(dm.scalarMultiVectors.at(n)), exp, k + "-output-" + n, 1e-10, 1e-3); }
    M JU = dense(c, F.gradient_u(U, V, Z, dt), k + "-gu"), JV = dense(c, F.gradient_v(U, V, Z, dt), k + "-gv"), GZ = dense(c, F.gradient_z(U, V, Z, dt), k + "-gz"), GX = dense(c, F.gradient_x(U, V, Z, dt), k + "-gx"); c.check(JU.r == (int)u.size() && JV.r == JU.r && GZ.r == g.nn() && GX.r == g.nn() * d && GZ.c == JU.r && GX.c == JU.r, k + "-shapes");
    for (int t = 0; t < 2; ++t) { D du = uni(r, u.size()), dz = uni(r, z.size()), dx = uni(r, g.xyz.size()); for (auto& x : dx) x *= 0.05;
      near_(c, mulv(JU, du), fdir([&](const D& y) { return ref(g, y, v, z); }, u, du, 1e-3), k + "-jac-u", 1e-7, amax(JU.a)); near_(c, mulv(JV, du), fdir([&](const D& y) { return ref(g, u, y, z); }, v, du, 1e-3), k + "-jac-v", 1e-7, amax(JV.a));
      near_(c, mulv(tr(GZ), dz), fdir([&](const D& y) { return ref(g, u, v, y); }, z, dz, 1e-3), k + "-jac-z", 1e-7, amax(GZ.a)); near_(c, mulv(tr(GX), dx), fdir([&](const D& y) { Geo h(g); h.xyz = y; return ref(h, u, v, z); }, g.xyz, dx, 1e-2), k + "-jac-x", 1e-6, 0.05 * amax(GX.a)); }
    near_(c, get(F.value(U, V, Z, dt)), R, k + "-repeatable", 0);
    // the criterion over a history: every step but the first
    int N = r.in(1, 4); D all = uni(r, N * u.size()); Plato::ScalarMultiVector SU("u", N, u.size()), SV("v", N, u.size()); for (int i = 0; i < N; ++i) for (size_t j = 0; j < u.size(); ++j) { SU(i, j) = all[i * u.size() + j]; SV(i, j) = r.uni(-1, 1); } Plato::Solution sol(SU, SV); Plato::DataMap dm2; Plato::Parabolic::ScalarFunctionBaseFactory<Phys> fac; auto C = fac.create(sm, dm2, p, cr.name); std::string kk = cr.kind; c.check(C->name() == cr.name, kk + "-name");
    auto hist = [&](const D& a) { return D(a.begin() + u.size(), a.end()); }; D h0 = hist(all); double w = cr.f(g, h0, z), val = C->value(sol, Z, dt), sc = std::max(1.0, std::fabs(w)); c.check(std::fabs(val - w) <= 1e-9 * sc, kk + "-value", str(val, " expected ", w)); D cz = get(C->gradient_z(sol, Z, dt)), cx = get(C->gradient_x(sol, Z, dt)); if (!c.check(cz.size() == z.size() && cx.size() == g.xyz.size(), kk + "-gradient-sizes")) continue;
    auto cmp = [&](double a, std::pair<double, double> b, const std::string& n) { c.check(std::fabs(a - b.first) <= 1e-6 * sc + 10 * b.second, kk + n, str(a, " expected ", b.first, " spread ", b.second)); };
    { D dz = uni(r, z.size()), dx = uni(r, g.xyz.size()); for (auto& x : dx) x *= 0.05; cmp(dot(cz, dz), fbest([&](const D& y) { return cr.f(g, h0, y); }, z, dz, 1e-3), "-gradient-z"); cmp(dot(cx, dx), fbest([&](const D& y) { Geo h(g); h.xyz = y; return cr.f(h, h0, z); }, g.xyz, dx, 1e-2), "-gradient-x"); }
    for (int i = 1; i < N; ++i) { D gu = get(C->gradient_u(sol, Z, i, dt)), gv = get(C->gradient_v(sol, Z, i, dt)); if (!c.check(gu.size() == u.size() && gv.size() == u.size(), kk + "-gradient-sizes")) break; D du = uni(r, u.size()); cmp(dot(gu, du), fbest([&](const D& y) { D a(h0); std::copy(y.begin(), y.end(), a.begin() + (i - 1) * u.size()); return cr.f(g, a, z); }, D(h0.begin() + (i - 1) * u.size(), h0.begin() + i * u.size()), du, 1e-3), "-gradient-u"); c.check(amax(gv) == 0, kk + "-gradient-v"); }
    c.check(C->value(sol, Z, dt) == val, kk + "-repeatable"); same(c, get(Z), z, kk + "-input-untouched"); bool un = true; for (int i = 0; i < N; ++i) for (size_t j = 0; j < u.size(); ++j) un = un && SU(i, j) == all[i * u.size() + j]; c.check(un, kk + "-input-untouched"); } }
SIM_GROUP(functions_thermal) { functions<Plato::Thermal<VDIM>>(c, thermalT, leafThermalT, 40, 12); }
SIM_GROUP(functions_thermomechanics) { functions<Plato::Thermomechanics<VDIM>>(c, thermomechT, leafThermomechT, 30, 8); }
// reference march: one Sol per step; states and rates of every step
struct March { Res2 R; double al = 0.5, dt = 1; int N = 1; bool nl = false; std::map<int, double> bc; D u0; std::vector<Sol> sol; std::vector<D> u, v;
  D rate(const D& x, const D& up, const D& vp) const { D y(x); for (size_t i = 0; i < y.size(); ++i) y[i] = (x[i] - up[i] - dt * (1 - al) * vp[i]) / (al * dt); return y; }
  Res at(const D& up, const D& vp) const { auto f = *this; f.sol.clear(); return [=](const Geo& g, const D& x, const D& z) { return f.R(g, x, f.rate(x, up, vp), z); }; }
  bool solve(const Geo& g, const D& z, const std::vector<D>* guess = nullptr) { u.assign(1, u0); v.assign(1, D(u0.size(), 0.0)); sol.assign(1, Sol()); for (int i = 1; i < N; ++i) { Sol s; s.nl = nl; s.bc = bc; s.R = at(u[i - 1], v[i - 1]); s.setup(u0.size()); if (guess) { s.u = (*guess)[i]; if (!s.factor(g, z)) return false; D x = s.near(g, z); if (std::isnan(x[0])) return false; s.u = x; if (!s.factor(g, z)) return false; } else if (!s.solve(g, z)) return false; u.push_back(s.u); v.push_back(rate(s.u, u[i - 1], v[i - 1])); sol.push_back(s); } return true; }
  // states of steps 1.. at a nearby point, concatenated
  D near(const Geo& g, const D& z) const { D all, up(u0), vp(u0.size(), 0.0); for (int i = 1; i < N; ++i) { Sol s(sol[i]); s.R = at(up, vp); D x = s.near(g, z); all.insert(all.end(), x.begin(), x.end()); vp = rate(x, up, vp); up = x; } return all; } };
static std::vector<D> rows(const Plato::ScalarMultiVector& s) { std::vector<D> o; for (size_t i = 0; i < s.extent(0); ++i) { D a; for (size_t j = 0; j < s.extent(1); ++j) a.push_back(s(i, j)); o.push_back(a); } return o; }
// random initial fields: the parameter lists and the nodal values they mean
static D initial(Rng& r, const Geo& g, PL& p, const Model& m) { int nd = m.nd; D u0(g.nn() * nd, 0.0); if (r.coin(0.3)) return u0; std::vector<std::string> nm; if (m.name == "thermal") nm = {"Temperature"}; else { const char* ax[3] = {"Displacement X", "Displacement Y", "Displacement Z"}; for (int i = 0; i < d; ++i) nm.push_back(ax[i]); nm.push_back("Temperature"); }
  for (int k = 0; k < nd; ++k) if (r.coin(0.6)) { double a = r.in(1, 8) / 8.0, b = r.in(0, 8) / 8.0; int w = r.in(0, 2); std::string fn = w == 0 ? str(a) : w == 1 ? str(a, "*x+", b, "*y") : str(a, "*x*y-", b); std::string name = str("field ", k); p.sublist("Computed Fields").sublist(name).set("Function", fn); p.sublist("Initial State").sublist(nm[k]).set("Computed Field", name); for (int n = 0; n < g.nn(); ++n) { double x = g.xyz[n * d], y = g.xyz[n * d + 1]; u0[n * nd + k] = w == 0 ? a : w == 1 ? a * x + b * y : a * x * y - b; } } if (!p.isSublist("Computed Fields") && r.coin(0.2)) p.sublist("Computed Fields").sublist("unused").set("Function", std::string("x")); return u0; }
template <class Phys> static void run(Ctx& c, std::function<Model(Rng&, int)> mk, Leaf leaf, int n2, int n3) { auto& r = c.rng; for (int it = 0; it < c.n(d == 2 ? n2 : n3, 300); ++it) { Setup s(r, mk); Geo& g = s.g; PL& p = s.p; Model& m = s.m; const std::string k = m.name; March ref; ref.R = residual2(m, s.pn, s.ls); ref.nl = m.nl; ref.N = r.coin(0.1) ? 1 : r.in(2, 4); ref.dt = r.uni(0.2, 1.5); PL& ti = p.sublist("Time Integration"); if (ref.N > 1 || r.coin()) ti.set("Number Time Steps", ref.N); if (r.coin(0.8)) ti.set("Time Step", ref.dt); else ref.dt = 1; if (r.coin(0.7)) ti.set("Trapezoid Alpha", ref.al = r.coin(0.3) ? 1.0 : r.uni(0.4, 1.0));
    genBcs(r, g, p, m.nd, ref.bc); ref.u0 = initial(r, g, p, m); if (m.nl || r.coin(0.2)) { PL& q = p.sublist("Newton Iteration"); q.set("Maximum Iterations", 15); if (r.coin()) q.set("Increment Tolerance", 1e-13); if (r.coin()) q.set("Residual Tolerance", 1e-12); }
    Gen G{r, p}; G.g = &g; Crit cr = leaf(G, m); { PL& l = p.sublist("Criteria").sublist("lin vol"); l.set("Type", std::string("Scalar Function")); l.set("Scalar Function Type", std::string("Volume")); l.set("Linear", true); PL& f = l.sublist("Penalty Function"); f.set("Type", std::string("SIMP")); f.set("Exponent", 1.0); f.set("Minimum Value", 0.0); }
    std::vector<std::string> want; if (k == "thermomechanics" && r.coin()) { want = {"strain"}; Teuchos::Array<std::string> pl; pl.push_back("strain"); p.sublist("Parabolic").set("Plottable", pl); }
    D z = ctrl(r, g), z2 = ctrl(r, g); c.begin(str("problem ", k, " ", cr.kind, " ", g.desc, " steps ", ref.N, " dt ", ref.dt, " alpha ", ref.al, " nl ", m.nl, " bcs ", ref.bc.size(), " loads ", s.ls.size(), " z0 ", z[0])); if (!ref.solve(g, z)) { c.begin("skipped: no reference solution"); continue; } double big = 0; for (auto& x : ref.u) big = std::max(big, amax(x)); if (big > 20) { c.begin("skipped: state too large"); continue; }
    Quiet quiet; PL pp(p); Plato::Parabolic::Problem<Phys> P(g.mesh, g.sets, pp, machine()); V1 Z = mk1(z); c.check(P.getNumSolutionDofs() == m.nd, k + "-sizes");
    auto judge = [&](const Plato::Solution& S, const D& z, const std::string& w) { auto U = rows(S.State), V = rows(S.StateDot); if (!c.check((int)U.size() == ref.N && (int)V.size() == ref.N && U[0].size() == ref.u0.size(), k + w + "-size")) return false; bool ok = near_(c, U[0], ref.u0, k + w + "-initial-state", 1e-12) && c.check(amax(V[0]) == 0, k + w + "-initial-rate");
      for (int i = 1; i < ref.N && ok; ++i) { double e = 0; for (auto& q : ref.bc) e = std::max(e, std::fabs(U[i][q.first] - q.second)); ok = c.check(e <= 1e-9, k + w + "-essential-conditions", str("step ", i, " off by ", e)) && ok; double sc = std::max(1.0, amax(U[i])); ok = near_(c, V[i], ref.rate(U[i], U[i - 1], V[i - 1]), k + w + "-trapezoid-rate", 1e-8, sc / ref.dt) && ok; D R = ref.R(g, U[i], V[i], z); double m2 = 0; for (size_t j = 0; j < R.size(); ++j) if (!ref.bc.count(j)) m2 = std::max(m2, std::fabs(R[j])); ok = c.check(m2 <= 1e-8 * std::max(1.0, ref.sol[i].scale) * sc, k + w + "-equations", str("step ", i, " residual ", m2)) && ok; }
      return ok; };
    auto S = P.solution(Z); same(c, get(Z), z, k + "-control-untouched"); if (!judge(S, z, "-solution")) continue; auto U = rows(S.State), V = rows(S.StateDot); if (!ref.nl) for (int i = 1; i < ref.N; ++i) near_(c, U[i], ref.u[i], k + "-state", 1e-7, 1.0); else { March r2(ref); if (!r2.solve(g, z, &U)) { c.begin("skipped: branch"); continue; } ref = r2; }
    if (r.coin(0.5)) { if (r.coin()) { March q(ref); if (!ref.nl || q.solve(g, z2)) judge(P.solution(mk1(z2)), z2, "-second-solution"); } S = P.solution(Z); auto U2 = rows(S.State), V2 = rows(S.StateDot); for (int i = 0; i < ref.N; ++i) { near_(c, U2[i], U[i], k + "-solution-history-free", 1e-7, 1.0); near_(c, V2[i], V[i], k + "-solution-history-free", 1e-7, 1 / ref.dt); } }
    if (want.size()) { auto dm = P.getDataMap(); c.check((int)dm.stateDataMaps.size() == ref.N, k + "-saved-states", str(dm.stateDataMaps.size(), " for ", ref.N, " steps")); for (int i = 0; i < ref.N && i < (int)dm.stateDataMaps.size(); ++i) { D exp; for (int e = 0; e < g.ne(); ++e) { D f = m.f(g, e, cell(g, e), U[i]).at("strain"); exp.insert(exp.end(), f.begin(), f.end()); } auto st = dm.getState(i); if (c.check(st.scalarMultiVectors.count("strain") == 1, k + "-saved-output-present")) near_(c, get(st.scalarMultiVectors.at("strain")), exp, k + "-saved-output", 1e-7, 1.0); } }
    D h0; for (int i = 1; i < ref.N; ++i) h0.insert(h0.end(), U[i].begin(), U[i].end()); double w = cr.f(g, h0, z), sc = std::max(1.0, std::fabs(w)); if (!(std::fabs(w) < 1e4)) continue; Plato::Solution own = P.getGlobalSolution(); bool ex = r.coin(); double v = ex ? P.criterionValue(Z, own, cr.name) : P.criterionValue(Z, cr.name); c.check(std::fabs(v - w) <= 1e-8 * sc, k + "-criterion-value", str(v, " expected ", w)); c.check(!P.criterionIsLinear(cr.name) && P.criterionIsLinear("lin vol"), k + "-criterion-kind");
    int order = r.in(0, 1); for (int o = 0; o < 2; ++o) { bool X = o == order; D gr = get(X ? (ex ? P.criterionGradientX(Z, own, cr.name) : P.criterionGradientX(Z, cr.name)) : (ex ? P.criterionGradient(Z, own, cr.name) : P.criterionGradient(Z, cr.name))); const char* nm = X ? "-total-gradient-x" : "-total-gradient-z"; if (!c.check((int)gr.size() == g.nn() * (X ? d : 1), k + nm + "-size")) continue;
      for (int t = 0; t < 2; ++t) { D dir = uni(r, gr.size()); if (t == 1) { std::fill(dir.begin(), dir.end(), 0.0); dir[r.in(0, dir.size() - 1)] = 1; } if (X) for (auto& x : dir) x *= 0.05; auto J = [&](const D& y) { if (X) { Geo h(g); h.xyz = y; return cr.f(h, ref.near(h, z), z); } return cr.f(g, ref.near(g, y), y); };
        auto be = fbest(J, X ? g.xyz : z, dir, X ? 1e-2 : 2e-3); double a = dot(gr, dir), mm = 0; for (size_t i = 0; i < gr.size(); ++i) mm = std::max(mm, std::fabs(gr[i] * dir[i])); if (std::isnan(be.first)) continue; c.check(std::fabs(a - be.first) <= 1e-5 * std::max(sc, mm) + 10 * be.second, k + nm, str(a, " expected ", be.first, " spread ", be.second)); } }
    auto U3 = rows(P.getGlobalSolution().State); for (int i = 0; i < ref.N; ++i) near_(c, U3[i], U[i], k + "-state-after-gradients", 1e-7, 1.0); same(c, get(Z), z, k + "-control-untouched"); c.check(std::fabs(P.criterionValue(Z, cr.name) - v) <= 1e-7 * sc, k + "-criterion-after-gradients");
    { double a = P.criterionValue(Z, "lin vol"), e = 0; for (int q = 0; q < g.ne(); ++q) { auto y = cell(g, q); e += y.vol * nodeAvg(y, z); } c.check(std::fabs(a - e) <= 1e-10 * e, k + "-linear-criterion", str(a, " expected ", e)); } } }
SIM_GROUP(problem_thermal) { run<Plato::Thermal<VDIM>>(c, thermalT, leafThermalT, 40, 10); }
SIM_GROUP(problem_thermomechanics) { run<Plato::Thermomechanics<VDIM>>(c, thermomechT, leafThermomechT, 30, 6); }
SIM_GROUP(rejections) { auto& r = c.rng; for (int it = 0; it < c.n(4, 40); ++it) { Geo g = box(r, d, 2, -1, true, 1); Model m = thermalT(r, 1); PL good; m.put(good, g); good.set("PDE Constraint", std::string("Parabolic")); good.sublist("Parabolic").sublist("Penalty Function") = pen(r).list(); PL& e = good.sublist("Essential Boundary Conditions").sublist("fix"); e.set("Type", std::string("Fixed Value")); e.set("Sides", std::string("ns_x0")); e.set("Value", 0.5); { PL& l = good.sublist("Criteria").sublist("k"); l.set("Type", std::string("Scalar Function")); l.set("Scalar Function Type", std::string("Internal Thermal Energy")); l.sublist("Penalty Function") = pen(r).list(); } good.sublist("Computed Fields").sublist("f").set("Function", std::string("x*y")); good.sublist("Initial State").sublist("Temperature").set("Computed Field", std::string("f")); good.sublist("Time Integration").set("Number Time Steps", 2); D z = ctrl(r, g); Quiet quiet;
    using P_ = Plato::Parabolic::Problem<Plato::Thermal<VDIM>>; auto run = [&](PL p, std::string cr = "k") { P_ P(g.mesh, g.sets, p, machine()); V1 Z = mk1(z); P.solution(Z); P.criterionValue(Z, cr); P.criterionGradient(Z, cr); P.criterionGradientX(Z, cr); };
    auto bad = [&](const std::string& what, std::function<void(PL&)> f) { c.begin(str(what, " ", it)); PL p(good); f(p); c.rejects([&] { run(p); }, "refuses-" + what); }; auto crit = [](PL& p) -> PL& { return p.sublist("Criteria").sublist("k"); }; auto mat = [](PL& p) -> PL& { return p.sublist("Material Models").sublist("mat0"); };
    c.begin("valid"); c.accepts([&] { run(good); }, "accepts-valid"); c.rejects([&] { run(good, "other"); }, "refuses-unknown-criterion");
    bad("unknown-computed-field", [&](PL& p) { p.sublist("Initial State").sublist("Temperature").set("Computed Field", std::string("h")); }); bad("no-computed-fields", [&](PL& p) { p.remove("Computed Fields"); }); bad("unknown-initial-dof", [&](PL& p) { p.sublist("Initial State").sublist("Temp").set("Computed Field", std::string("f")); }); bad("missing-function", [&](PL& p) { p.sublist("Computed Fields").sublist("g"); }); bad("computed-field-not-a-list", [&](PL& p) { p.sublist("Computed Fields").set("g", 1.0); });
    bad("missing-thermal-mass", [&](PL& p) { mat(p).remove("Thermal Mass"); }); bad("missing-specific-heat", [&](PL& p) { mat(p).sublist("Thermal Mass").remove("Specific Heat"); }); bad("missing-density", [&](PL& p) { mat(p).sublist("Thermal Mass").remove("Mass Density"); }); bad("missing-conduction", [&](PL& p) { mat(p).remove("Thermal Conduction"); });
    bad("unknown-criterion-type", [&](PL& p) { crit(p).set("Type", std::string("Weighted")); }); bad("missing-criterion-type", [&](PL& p) { crit(p).remove("Type"); }); bad("unknown-scalar-function", [&](PL& p) { crit(p).set("Scalar Function Type", std::string("Internal")); }); bad("unknown-criterion-penalty", [&](PL& p) { crit(p).sublist("Penalty Function").set("Type", std::string("S")); }); bad("unknown-penalty", [&](PL& p) { p.sublist("Parabolic").sublist("Penalty Function").set("Type", std::string("S")); }); bad("unknown-pde", [&](PL& p) { p.set("PDE Constraint", std::string("Elliptic2")); }); bad("criterion-not-a-list", [&](PL& p) { p.sublist("Criteria").set("more", 1.0); }); } }
