// C20: transient structural dynamics.  The equations of motion with inertia and Rayleigh damping, their derivatives, the Newmark
// march through time and the total derivatives of criteria over the whole history.
#include "refsolve.hpp"
#include "hyperbolic/HyperbolicProblem.hpp"
using namespace refsolve;
using Phys = Plato::Hyperbolic::Mechanics<VDIM>;
static MPI_Comm world = MPI_COMM_WORLD; static Plato::Comm::Machine& machine() { static Plato::Comm::Machine m(world); return m; }
struct Quiet { std::streambuf* b; std::ostringstream s; Quiet() : b(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(b); } };
static D ctrl(Rng& r, const Geo& g) { D z = uni(r, g.nn(), 0.3, 1.0); if (r.coin(0.2)) for (auto& x : z) x = 1; return z; }
static const std::string k = "dynamics";
struct Setup { int nb; Geo g; Model m; Pen pn; PL p; std::vector<Load> ls; std::vector<Body> bs; D ra, rb; bool fixed;
  Setup(Rng& r) : nb(r.in(1, 2)), g(box(r, d, 2, -1, true, nb)), m(phys::mechanics(r, d, nb)), pn(pen(r)), fixed(r.coin(0.7)) { for (int b = 0; b < nb; ++b) { PL& l = m.lists[b].sublist(m.el[b].family); double A = 0, B = 0; if (r.coin(0.4)) l.set("RayleighA", A = r.uni(0, 1)); if (r.coin(0.4)) l.set("RayleighB", B = r.uni(0, 0.5)); ra.push_back(A); rb.push_back(B); } m.put(p, g); p.set("PDE Constraint", std::string("Hyperbolic")); p.sublist("Hyperbolic").sublist("Penalty Function") = pn.list(); genAllLoads(r, g, p, m, ls, bs, fixed); } };
// internal, viscous and inertial forces minus loads at one instant
using Res3 = std::function<D(const Geo&, const D&, const D&, const D&, const D&, double)>;
static Res3 motion(const Setup& s, const Geo* at = nullptr) { Model m = s.m; Pen pn = s.pn; auto ls = s.ls; auto bs = s.bs; D ra = s.ra, rb = s.rb; int nb = s.nb; return [=](const Geo& h, const D& u, const D& v, const D& a, const D& z, double t) { D R(h.nn() * d, 0.0); for (int e = 0; e < h.ne(); ++e) { auto q = cell(h, e); int b = h.blockOf[e] % nb; double w = pn(nodeAvg(q, z)) * q.vol; D st = m.f(h, e, q, u).at("stress"), sv = mulv(m.el[b].C, m.f(h, e, q, v).at("strain")); for (size_t i = 0; i < st.size(); ++i) st[i] += rb[b] * sv[i]; addStress(h, q, st, R, d, 0, w);
    for (int i = 0; i < d; ++i) { double A = 0, V = 0; for (int n : q.v) { A += a[n * d + i] / (d + 1); V += v[n * d + i] / (d + 1); } for (int n : q.v) R[n * d + i] += w * m.el[b].rho * (A + ra[b] * V) / (d + 1); } } addLoads(h, ls, bs, z, R, d, at, t); return R; }; }
static Crit leafOf20(Gen& G, const Model& m) { auto& r = G.r; Pen p = pen(r); if (r.coin(0.6)) return leafOf(G, "Internal Elastic Energy", "elasticenergy", &p, integral(m, [=](const Geo&, int, const Cell& q, const Fld& f, double z) { return q.vol * p(z) * dot(f.at("stress"), f.at("strain")); })); return pnorm(G, m, "stress", p, 0); }
static std::vector<D> rows(const Plato::ScalarMultiVector& s) { std::vector<D> o; for (size_t i = 0; i < s.extent(0); ++i) { D a; for (size_t j = 0; j < s.extent(1); ++j) a.push_back(s(i, j)); o.push_back(a); } return o; }
SIM_GROUP(functions) { auto& r = c.rng; for (int it = 0; it < c.n(d == 2 ? 40 : 12, 400); ++it) { Setup s(r); Geo& g = s.g; Gen G{r, s.p}; G.g = &g; Crit cr = leafOf20(G, s.m); Quiet quiet; bool damp = false; for (int b = 0; b < s.nb; ++b) damp = damp || s.ra[b] != 0 || s.rb[b] != 0; bool alld = true; for (int b = 0; b < s.nb; ++b) alld = alld && (s.ra[b] != 0 || s.rb[b] != 0);
    std::vector<std::string> want; { Teuchos::Array<std::string> pl; for (auto n : {"strain", "stress", "velgrad"}) if (r.coin()) { if (std::string(n) == "velgrad" && !alld) continue; want.push_back(n); pl.push_back(n); } if (want.size()) s.p.sublist("Hyperbolic").set("Plottable", pl); }
    D u = uni(r, g.nn() * d), v = uni(r, u.size()), a = uni(r, u.size()), z = ctrl(r, g); double dt = r.uni(0.1, 2), t = r.uni(0, 3); c.begin(str("functions ", g.desc, " loads ", s.ls.size(), " bodies ", s.bs.size(), " damping ", damp, " ", cr.kind, " u0 ", u[0])); PL p(s.p); Plato::DataMap dm; Plato::SpatialModel sm(g.mesh, g.sets, p); std::string type("Hyperbolic"); Plato::Hyperbolic::VectorFunction<Phys> F(sm, dm, p, type); Res3 ref = motion(s), refX = motion(s, &g); V1 U = mk1(u), V = mk1(v), A = mk1(a), Z = mk1(z);
    c.check(F.size() == (int)u.size(), k + "-size"); c.check((int)F.getDofNames().size() == d && (int)F.getDofDotNames().size() == d, k + "-dof-names", str(F.getDofNames().size(), " names for ", d, " dofs"));
    D R = get(F.value(U, V, A, Z, dt, t)); near_(c, R, ref(g, u, v, a, z, t), k + "-residual", 1e-10); same(c, get(U), u, k + "-input-untouched"); same(c, get(V), v, k + "-input-untouched"); same(c, get(A), a, k + "-input-untouched"); same(c, get(Z), z, k + "-input-untouched");
    for (auto& n : want) { D exp; for (int e = 0; e < g.ne(); ++e) { auto q = cell(g, e); int b = g.blockOf[e] % s.nb; D f; if (n == "velgrad") f = s.m.f(g, e, q, v).at("strain"); else { f = s.m.f(g, e, q, u).at(n); if (n == "stress") { D w = mulv(s.m.el[b].C, s.m.f(g, e, q, v).at("strain")); for (size_t i = 0; i < f.size(); ++i) f[i] = (f[i] + s.rb[b] * w[i]) * s.pn(nodeAvg(q, z)); } } exp.insert(exp.end(), f.begin(), f.end()); } if (!c.check(dm.scalarMultiVectors.count(n) == 1, k + "-output-" + n + "-present")) continue; near_(c, get(dm.scalarMultiVectors.at(n)), exp, k + "-output-" + n, 1e-10, 1e-3); }
    M JU = dense(c, F.gradient_u(U, V, A, Z, dt, t), k + "-gu"), JV = dense(c, F.gradient_v(U, V, A, Z, dt, t), k + "-gv"), JA = dense(c, F.gradient_a(U, V, A, Z, dt, t), k + "-ga"), GZ = dense(c, F.gradient_z(U, V, A, Z, dt, t), k + "-gz"), GX = dense(c, F.gradient_x(U, V, A, Z, dt, t), k + "-gx"); int n = u.size(); c.check(JU.r == n && JV.r == n && JA.r == n && GZ.r == g.nn() && GX.r == n && GZ.c == n && GX.c == n, k + "-shapes");
    for (int q = 0; q < 2; ++q) { D du = uni(r, n), dz = uni(r, z.size()), dx = uni(r, g.xyz.size()); for (auto& x : dx) x *= 0.05;
      near_(c, mulv(JU, du), fdir([&](const D& y) { return ref(g, y, v, a, z, t); }, u, du, 1e-3), k + "-jac-u", 1e-7, amax(JU.a)); near_(c, mulv(JV, du), fdir([&](const D& y) { return ref(g, u, y, a, z, t); }, v, du, 1e-3), k + "-jac-v", 1e-7, amax(JV.a)); near_(c, mulv(JA, du), fdir([&](const D& y) { return ref(g, u, v, y, z, t); }, a, du, 1e-3), k + "-jac-a", 1e-7, amax(JA.a));
      near_(c, mulv(tr(GZ), dz), fdir([&](const D& y) { return ref(g, u, v, a, y, t); }, z, dz, 1e-3), k + "-jac-z", 1e-7, amax(GZ.a)); near_(c, mulv(tr(GX), dx), fdir([&](const D& y) { Geo h(g); h.xyz = y; return refX(h, u, v, a, z, t); }, g.xyz, dx, 1e-2), k + "-jac-x", 1e-6, 0.05 * amax(GX.a)); }
    near_(c, get(F.value(U, V, A, Z, dt, t)), R, k + "-repeatable", 0);
    // the criterion over a history: every step but the first
    int N = r.in(2, 4); D all = uni(r, N * n); Plato::ScalarMultiVector SU("u", N, n), SV("v", N, n), SA("a", N, n); for (int i = 0; i < N; ++i) for (int j = 0; j < n; ++j) { SU(i, j) = all[i * n + j]; SV(i, j) = r.uni(-1, 1); SA(i, j) = r.uni(-1, 1); } Plato::Solution sol(SU, SV, SA); Plato::DataMap dm2; Plato::Hyperbolic::ScalarFunctionFactory<Phys> fac; auto C = fac.create(sm, dm2, p, cr.name); std::string kk = cr.kind; c.check(C->name() == cr.name, kk + "-name");
    D h0(all.begin() + n, all.end()); double w = cr.f(g, h0, z), val = C->value(sol, Z, dt), sc = std::max(1.0, std::fabs(w)); c.check(std::fabs(val - w) <= 1e-9 * sc, kk + "-value", str(val, " expected ", w)); D cz = get(C->gradient_z(sol, Z, dt)), cx = get(C->gradient_x(sol, Z, dt)); if (!c.check(cz.size() == z.size() && cx.size() == g.xyz.size(), kk + "-gradient-sizes")) continue;
    auto cmp = [&](double x, std::pair<double, double> b, const std::string& nm) { c.check(std::fabs(x - b.first) <= 1e-6 * sc + 10 * b.second, kk + nm, str(x, " expected ", b.first, " spread ", b.second)); };
    { D dz = uni(r, z.size()), dx = uni(r, g.xyz.size()); for (auto& x : dx) x *= 0.05; cmp(dot(cz, dz), fbest([&](const D& y) { return cr.f(g, h0, y); }, z, dz, 1e-3), "-gradient-z"); cmp(dot(cx, dx), fbest([&](const D& y) { Geo h(g); h.xyz = y; return cr.f(h, h0, z); }, g.xyz, dx, 1e-2), "-gradient-x"); }
    for (int i = 1; i < N; ++i) { D gu = get(C->gradient_u(sol, Z, i, dt)), gv = get(C->gradient_v(sol, Z, i, dt)), ga = get(C->gradient_a(sol, Z, i, dt)); if (!c.check((int)gu.size() == n && (int)gv.size() == n && (int)ga.size() == n, kk + "-gradient-sizes")) break; D du = uni(r, n); cmp(dot(gu, du), fbest([&](const D& y) { D q(h0); std::copy(y.begin(), y.end(), q.begin() + (i - 1) * n); return cr.f(g, q, z); }, D(h0.begin() + (i - 1) * n, h0.begin() + i * n), du, 1e-3), "-gradient-u"); c.check(amax(gv) == 0 && amax(ga) == 0, kk + "-gradient-rates"); }
    c.check(C->value(sol, Z, dt) == val, kk + "-repeatable"); same(c, get(Z), z, kk + "-input-untouched"); bool un = true; for (int i = 0; i < N; ++i) for (int j = 0; j < n; ++j) un = un && SU(i, j) == all[i * n + j]; c.check(un, kk + "-input-untouched"); } }
// reference march
struct March { Res3 R; double ga = 0.5, be = 0.25, dt = 1; int N = 1; std::map<int, double> bc, rate; D u0, v0; std::vector<Sol> sol; std::vector<D> u, v, a;
  D pred(const D& up, const D& vp, const D& ap) const { D y(up); for (size_t i = 0; i < y.size(); ++i) y[i] += dt * vp[i] + dt * dt / 2 * (1 - 2 * be) * ap[i]; return y; }
  D acc(const D& x, const D& up, const D& vp, const D& ap) const { D y = pred(up, vp, ap); for (size_t i = 0; i < y.size(); ++i) y[i] = (x[i] - y[i]) / (be * dt * dt); return y; }
  D vel(const D& an, const D& vp, const D& ap) const { D y(vp); for (size_t i = 0; i < y.size(); ++i) y[i] += dt * ((1 - ga) * ap[i] + ga * an[i]); return y; }
  Res at(const D& up, const D& vp, const D& ap, double t) const { auto f = *this; f.sol.clear(); return [=](const Geo& g, const D& x, const D& z) { D an = f.acc(x, up, vp, ap); return f.R(g, x, f.vel(an, vp, ap), an, z, t); }; }
  std::map<int, double> bcAt(double t) const { auto b = bc; for (auto& q : b) q.second += t * rate.at(q.first); return b; }
  bool solve(const Geo& g, const D& z) { u.assign(1, u0); v.assign(1, v0); a.assign(1, D(u0.size(), 0.0)); sol.assign(1, Sol()); for (int i = 1; i < N; ++i) { Sol s; s.bc = bcAt(i * dt); s.R = at(u[i - 1], v[i - 1], a[i - 1], i * dt); s.setup(u0.size()); if (!s.solve(g, z)) return false; u.push_back(s.u); a.push_back(acc(s.u, u[i - 1], v[i - 1], a[i - 1])); v.push_back(vel(a[i], v[i - 1], a[i - 1])); sol.push_back(s); } return true; }
  D near(const Geo& g, const D& z) const { D all, up(u0), vp(v0), ap(u0.size(), 0.0); for (int i = 1; i < N; ++i) { Sol s(sol[i]); s.R = at(up, vp, ap, i * dt); D x = s.near(g, z); all.insert(all.end(), x.begin(), x.end()); D an = acc(x, up, vp, ap); vp = vel(an, vp, ap); ap = an; up = x; } return all; } };
static void initial(Rng& r, const Geo& g, PL& p, D& u0, D& v0) { u0.assign(g.nn() * d, 0.0); v0 = u0; if (r.coin(0.3)) return; const char* ax[3] = {" X", " Y", " Z"}; for (int w = 0; w < 2; ++w) for (int q = 0; q < d; ++q) if (r.coin(0.5)) { double a = r.in(1, 8) / 16.0, b = r.in(0, 8) / 16.0; bool lin = r.coin(); std::string name = str("field ", w, q); p.sublist("Computed Fields").sublist(name).set("Function", lin ? str(a, "*x+", b, "*y") : str(a, "*x*y-", b)); p.sublist("Initial State").sublist(std::string(w ? "Velocity" : "Displacement") + ax[q]).set("Computed Field", name); for (int n = 0; n < g.nn(); ++n) { double x = g.xyz[n * d], y = g.xyz[n * d + 1]; (w ? v0 : u0)[n * d + q] = lin ? a * x + b * y : a * x * y - b; } } }
SIM_GROUP(problem) { auto& r = c.rng; for (int it = 0; it < c.n(d == 2 ? 60 : 12, 300); ++it) { Setup s(r); Geo& g = s.g; PL& p = s.p; Model& m = s.m; March ref; ref.R = motion(s); ref.N = r.coin(0.1) ? 1 : r.in(2, 5); ref.dt = r.uni(0.2, 1.5); PL& ti = p.sublist("Time Integration"); ti.set("Number Time Steps", ref.N); ti.set("Time Step", ref.dt); if (r.coin(0.7)) { ref.ga = r.uni(0.4, 0.8); ref.be = r.uni(0.2, 0.45); } ti.set("Newmark Gamma", ref.ga); ti.set("Newmark Beta", ref.be);
    genBcs(r, g, p, d, ref.bc, false, &ref.rate, "Displacement Boundary Conditions"); initial(r, g, p, ref.u0, ref.v0); Gen G{r, p}; G.g = &g; Crit cr = leafOf20(G, m); bool want = r.coin(); if (want) { Teuchos::Array<std::string> pl; pl.push_back("strain"); p.sublist("Hyperbolic").set("Plottable", pl); }
    D z = ctrl(r, g), z2 = ctrl(r, g); c.begin(str("problem ", cr.kind, " ", g.desc, " steps ", ref.N, " dt ", ref.dt, " gamma ", ref.ga, " beta ", ref.be, " bcs ", ref.bc.size(), " loads ", s.ls.size(), " bodies ", s.bs.size(), " z0 ", z[0])); if (!ref.solve(g, z)) { c.begin("skipped: no reference solution"); continue; } double big = 0; for (auto& x : ref.u) big = std::max(big, amax(x)); if (big > 40) { c.begin("skipped: state too large"); continue; }
    Quiet quiet; PL pp(p); Plato::HyperbolicProblem<Phys> P(g.mesh, g.sets, pp, machine()); V1 Z = mk1(z); c.check(P.getNumSolutionDofs() == d, k + "-sizes");
    auto judge = [&](const Plato::Solution& S, const D& z, const std::string& w) { auto U = rows(S.State), V = rows(S.StateDot), A = rows(S.StateDotDot); if (!c.check((int)U.size() == ref.N && (int)V.size() == ref.N && (int)A.size() == ref.N && U[0].size() == ref.u0.size(), k + w + "-size")) return false; bool ok = near_(c, U[0], ref.u0, k + w + "-initial-displacement", 1e-12) && near_(c, V[0], ref.v0, k + w + "-initial-velocity", 1e-12) && c.check(amax(A[0]) == 0, k + w + "-initial-acceleration");
      for (int i = 1; i < ref.N && ok; ++i) { double e = 0; for (auto& q : ref.bcAt(i * ref.dt)) e = std::max(e, std::fabs(U[i][q.first] - q.second)); ok = c.check(e <= 1e-9, k + w + "-essential-conditions", str("step ", i, " off by ", e)) && ok; double sc = std::max(1.0, std::max(amax(U[i]), std::max(amax(V[i]) * ref.dt, amax(A[i]) * ref.dt * ref.dt)));
        ok = near_(c, A[i], ref.acc(U[i], U[i - 1], V[i - 1], A[i - 1]), k + w + "-newmark-acceleration", 1e-8, sc / (ref.be * ref.dt * ref.dt)) && ok; ok = near_(c, V[i], ref.vel(A[i], V[i - 1], A[i - 1]), k + w + "-newmark-velocity", 1e-8, sc / ref.dt) && ok; D R = ref.R(g, U[i], V[i], A[i], z, i * ref.dt); double m2 = 0; auto b = ref.bc; for (size_t j = 0; j < R.size(); ++j) if (!b.count(j)) m2 = std::max(m2, std::fabs(R[j])); ok = c.check(m2 <= 1e-8 * std::max(1.0, ref.sol[i].scale) * sc, k + w + "-equations", str("step ", i, " residual ", m2)) && ok; } return ok; };
    auto S = P.solution(Z); same(c, get(Z), z, k + "-control-untouched"); if (!judge(S, z, "-solution")) continue; auto U = rows(S.State), V = rows(S.StateDot); for (int i = 1; i < ref.N; ++i) near_(c, U[i], ref.u[i], k + "-state", 1e-7, 1.0);
    if (r.coin(0.5)) { if (r.coin()) judge(P.solution(mk1(z2)), z2, "-second-solution"); S = P.solution(Z); auto U2 = rows(S.State), V2 = rows(S.StateDot); for (int i = 0; i < ref.N; ++i) { near_(c, U2[i], U[i], k + "-solution-history-free", 1e-7, 1.0); near_(c, V2[i], V[i], k + "-solution-history-free", 1e-7, 1 / ref.dt); } }
    if (want) { auto dm = P.getDataMap(); c.check((int)dm.stateDataMaps.size() == ref.N, k + "-saved-states", str(dm.stateDataMaps.size(), " for ", ref.N, " steps")); for (int i = 0; i < ref.N && i < (int)dm.stateDataMaps.size(); ++i) { D exp; for (int e = 0; e < g.ne(); ++e) { D f = m.f(g, e, cell(g, e), U[i]).at("strain"); exp.insert(exp.end(), f.begin(), f.end()); } auto st = dm.getState(i); if (c.check(st.scalarMultiVectors.count("strain") == 1, k + "-saved-output-present")) near_(c, get(st.scalarMultiVectors.at("strain")), exp, k + "-saved-output", 1e-7, 1.0); } }
    D h0; for (int i = 1; i < ref.N; ++i) h0.insert(h0.end(), U[i].begin(), U[i].end()); double w = cr.f(g, h0, z), sc = std::max(1.0, std::fabs(w)); if (!(std::fabs(w) < 1e5) || (ref.N > 1 && std::fabs(w) < 1e-3)) continue; Plato::Solution own = P.getGlobalSolution(); bool ex = r.coin(); double val = ex ? P.criterionValue(Z, own, cr.name) : P.criterionValue(Z, cr.name); c.check(std::fabs(val - w) <= 1e-8 * sc, k + "-criterion-value", str(val, " expected ", w)); if (ref.N == 1 && cr.kind == "stresspnorm") continue; // not differentiable without a step
    int order = r.in(0, 1); for (int o = 0; o < 2; ++o) { bool X = o == order; if (X && !s.fixed) continue; D gr = get(X ? (ex ? P.criterionGradientX(Z, own, cr.name) : P.criterionGradientX(Z, cr.name)) : (ex ? P.criterionGradient(Z, own, cr.name) : P.criterionGradient(Z, cr.name))); const char* nm = X ? "-total-gradient-x" : "-total-gradient-z"; if (!c.check((int)gr.size() == g.nn() * (X ? d : 1), k + nm + "-size")) continue;
      for (int t = 0; t < 2; ++t) { D dir = uni(r, gr.size()); if (t == 1) { std::fill(dir.begin(), dir.end(), 0.0); dir[r.in(0, dir.size() - 1)] = 1; } if (X) for (auto& x : dir) x *= 0.05; auto J = [&](const D& y) { if (X) { Geo h(g); h.xyz = y; return cr.f(h, ref.near(h, z), z); } return cr.f(g, ref.near(g, y), y); };
        auto be = fbest(J, X ? g.xyz : z, dir, X ? 1e-2 : 2e-3); double a = dot(gr, dir), mm = 0; for (size_t i = 0; i < gr.size(); ++i) mm = std::max(mm, std::fabs(gr[i] * dir[i])); if (std::isnan(be.first)) continue; c.check(std::fabs(a - be.first) <= 1e-5 * std::max(sc, mm) + 10 * be.second, k + nm, str(a, " expected ", be.first, " spread ", be.second)); } }
    auto U3 = rows(P.getGlobalSolution().State); for (int i = 0; i < ref.N; ++i) near_(c, U3[i], U[i], k + "-state-after-gradients", 1e-7, 1.0); same(c, get(Z), z, k + "-control-untouched"); c.check(std::fabs(P.criterionValue(Z, cr.name) - val) <= 1e-7 * sc, k + "-criterion-after-gradients"); } }
SIM_GROUP(rejections) { auto& r = c.rng; for (int it = 0; it < c.n(4, 40); ++it) { Geo g = box(r, d, 2, -1, true, 1); Model m = phys::mechanics(r, d, 1); PL good; m.put(good, g); good.set("PDE Constraint", std::string("Hyperbolic")); good.sublist("Hyperbolic").sublist("Penalty Function") = pen(r).list(); for (int q = 0; q < d; ++q) { PL& e = good.sublist("Displacement Boundary Conditions").sublist(str("fix", q)); e.set("Type", std::string("Fixed Value")); e.set("Sides", std::string("ns_x0")); e.set("Index", q); e.set("Value", 0.5); } { PL& l = good.sublist("Criteria").sublist("k"); l.set("Type", std::string("Scalar Function")); l.set("Scalar Function Type", std::string("Internal Elastic Energy")); l.sublist("Penalty Function") = pen(r).list(); } good.sublist("Computed Fields").sublist("f").set("Function", std::string("x*y")); good.sublist("Initial State").sublist("Velocity Y").set("Computed Field", std::string("f")); { PL& ti = good.sublist("Time Integration"); ti.set("Number Time Steps", 2); ti.set("Time Step", 0.5); ti.set("Newmark Gamma", 0.5); ti.set("Newmark Beta", 0.25); } D z = ctrl(r, g); Quiet quiet;
    auto run = [&](PL p, std::string cr = "k") { Plato::HyperbolicProblem<Phys> P(g.mesh, g.sets, p, machine()); V1 Z = mk1(z); P.solution(Z); P.criterionValue(Z, cr); P.criterionGradient(Z, cr); P.criterionGradientX(Z, cr); };
    auto bad = [&](const std::string& what, std::function<void(PL&)> f) { c.begin(str(what, " ", it)); PL p(good); f(p); c.rejects([&] { run(p); }, "refuses-" + what); }; auto crit = [](PL& p) -> PL& { return p.sublist("Criteria").sublist("k"); };
    c.begin("valid"); c.accepts([&] { run(good); }, "accepts-valid"); c.rejects([&] { run(good, "other"); }, "refuses-unknown-criterion");
    bad("unknown-computed-field", [&](PL& p) { p.sublist("Initial State").sublist("Velocity X").set("Computed Field", std::string("h")); }); bad("no-computed-fields", [&](PL& p) { p.remove("Computed Fields"); }); bad("unknown-initial-dof", [&](PL& p) { p.sublist("Initial State").sublist(d == 2 ? "Displacement Z" : "Displacement W").set("Computed Field", std::string("f")); });
    for (auto n : {"Number Time Steps", "Time Step", "Newmark Gamma", "Newmark Beta"}) bad(std::string("missing-") + n, [&](PL& p) { p.sublist("Time Integration").remove(n); });
    bad("unknown-criterion-type", [&](PL& p) { crit(p).set("Type", std::string("Weighted")); }); bad("missing-criterion-type", [&](PL& p) { crit(p).remove("Type"); }); bad("unknown-scalar-function", [&](PL& p) { crit(p).set("Scalar Function Type", std::string("Internal")); }); bad("unknown-criterion-penalty", [&](PL& p) { crit(p).sublist("Penalty Function").set("Type", std::string("S")); }); bad("unknown-penalty", [&](PL& p) { p.sublist("Hyperbolic").sublist("Penalty Function").set("Type", std::string("S")); }); bad("unknown-pde", [&](PL& p) { p.set("PDE Constraint", std::string("Elliptic2")); }); bad("criterion-not-a-list", [&](PL& p) { p.sublist("Criteria").set("more", 1.0); }); bad("unknown-material", [&](PL& p) { p.sublist("Material Models").remove("mat0"); }); } }
