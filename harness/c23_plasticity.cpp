// C23: elastoplastic and thermo-elastoplastic problems.  The radial return and its residual, the mixed momentum residual, work
// criteria, every derivative of them, whole load histories and total derivatives of criteria along them.
#include "refsolve.hpp"
#include "PlasticityProblem.hpp"
#include "Plasticity.hpp"
#include "ThermoPlasticity.hpp"
#include "ComputeCauchyStress.hpp"
#include <sys/stat.h>
#include <unistd.h>
using namespace refsolve;
static MPI_Comm world = MPI_COMM_WORLD; static Plato::Comm::Machine& machine() { static Plato::Comm::Machine m(world); return m; }
// the solver leaves a diagnostics file in the working directory: keep it in a scratch folder
struct Quiet { std::streambuf* b; std::ostringstream s; char old[4096]; std::string dir; Quiet() : b(std::cout.rdbuf(s.rdbuf())) { char t[] = "/tmp/c23XXXXXX"; if (!getcwd(old, sizeof old) || !mkdtemp(t) || chdir(t)) std::abort(); dir = t; }
  ~Quiet() { std::cout.rdbuf(b); unlink((dir + "/plato_analyze_newton_raphson_diagnostics.txt").c_str()); if (chdir(old)) std::abort(); rmdir(dir.c_str()); } };
static const int NL = d == 2 ? 10 : 14, NS = d == 2 ? 4 : 6; // local states per cell, stored tensor components
static const int IJ2[4][2] = {{0, 0}, {1, 1}, {0, 1}, {2, 2}}, IJ3[6][2] = {{0, 0}, {1, 1}, {2, 2}, {1, 2}, {0, 2}, {0, 1}};
static int ci(int k) { return d == 2 ? IJ2[k][0] : IJ3[k][0]; } static int cj(int k) { return d == 2 ? IJ2[k][1] : IJ3[k][1]; }
using T3 = std::array<double, 9>;
static T3 tens(const double* c, bool eng) { T3 t{}; for (int k = 0; k < NS; ++k) { int i = ci(k), j = cj(k); double v = c[k] * (i != j && eng ? 0.5 : 1); t[i * 3 + j] = t[j * 3 + i] = v; } return t; }
static void put(const T3& t, double* c, bool eng) { for (int k = 0; k < NS; ++k) { int i = ci(k), j = cj(k); c[k] = t[i * 3 + j] * (i != j && eng ? 2 : 1); } }
static double trace(const T3& t) { return t[0] + t[4] + t[8]; }
static T3 dev(T3 t) { double m = trace(t) / 3; t[0] -= m; t[4] -= m; t[8] -= m; return t; }
static double dd(const T3& a, const T3& b) { double s = 0; for (int i = 0; i < 9; ++i) s += a[i] * b[i]; return s; }
static T3 lin(double a, const T3& x, double b, const T3& y) { T3 t; for (int i = 0; i < 9; ++i) t[i] = a * x[i] + b * y[i]; return t; }
static Pen simp(Rng& r, double p, double mn) { Pen q; q.type = "SIMP"; q.p = p; q.mn = mn; return q; }
// known finding: the three dimensional Cauchy stress takes the yz shear for the zz strain in its trace (the unit tests pin it)
static bool quirk() { if (d == 2) return false; Plato::ScalarMultiVector e("e", 1, NS), o("s", 1, NS); e(0, 3) = 1; Plato::ComputeCauchyStress<VDIM> f; f(0, 5.0, 3.0, e, o); return std::fabs(o(0, 0) - 3) < 1e-12 && std::fabs(o(0, 2) - 3) < 1e-12; }
static const bool& quirky() { static const bool q = quirk(); return q; }
#define QUIRK quirky()
struct Mt { double E, nu, K, G, Hi, Hk, sy, al = 0, T0 = 0, k = 0; Pen pe, pl; };
struct Setup { bool th; int nb, nd, pd; Geo g; Pen pn, pp; PL p; std::vector<Mt> mt; double S = 1, sT = 1; std::vector<Load> ls; std::vector<Body> bs; bool fixed; std::string k;
  Setup(Rng& r, bool th_, bool small) : th(th_), nb(r.in(1, 2)), nd(th_ ? d + 2 : d + 1), pd(th_ ? d + 1 : d), g(box(r, d, small && d == 3 ? 1 : 2, -1, true, nb)), pp(pen(r)), fixed(r.coin(0.6)), k(th_ ? "thermo" : "mech") {
    pn = simp(r, 1.0, 1e-9); p.set("PDE Constraint", std::string("Elliptic")); PL& ep = p.sublist("Elliptic"); if (r.coin(0.8)) { PL& q = ep.sublist("Penalty Function"); if (r.coin()) q.set("Exponent", pn.p = r.uni(1, 3)); if (r.coin()) q.set("Minimum Value", pn.mn = r.uni(0.001, 0.1)); } else pn.p = 3;
    if (r.coin()) S = r.uni(0.5, 2); if (th && r.coin()) sT = r.uni(0.5, 2); std::vector<std::string> nm;
    PL& mm = p.sublist("Material Models"); if (S != 1 || r.coin()) mm.set("Pressure Scaling", S); if (th && (sT != 1 || r.coin())) mm.set("Temperature Scaling", sT);
    for (int b = 0; b < nb; ++b) { Mt q; q.E = r.uni(1, 3); q.nu = r.coin(0.2) ? r.uni(0.45, 0.499) : r.uni(-0.1, 0.45); q.K = q.E / (3 * (1 - 2 * q.nu)); q.G = q.E / (2 * (1 + q.nu)); q.Hi = r.coin(0.2) ? 0 : r.uni(0.1, 1.5); q.Hk = q.Hi > 0 && r.coin(0.2) ? 0 : r.uni(0.1, 1.5); q.sy = r.uni(0.05, 0.5); PL& m = mm.sublist(str("mat", b)); nm.push_back(str("mat", b));
      PL& l = m.sublist(th ? "Isotropic Linear Thermoelastic" : "Isotropic Linear Elastic"); l.set("Youngs Modulus", q.E); l.set("Poissons Ratio", q.nu); if (th) { l.set("Thermal Expansion Coefficient", q.al = r.uni(0.01, 0.3)); l.set("Thermal Conductivity Coefficient", q.k = r.uni(0.5, 2)); l.set("Reference Temperature", q.T0 = r.uni(-1, 1)); }
      PL& j = m.sublist("Plasticity Model").sublist("J2 Plasticity"); j.set("Hardening Modulus Isotropic", q.Hi); j.set("Hardening Modulus Kinematic", q.Hk); j.set("Initial Yield Stress", q.sy); q.pe = simp(r, 1, 1e-9); q.pl = simp(r, 0.5, 1e-4); if (r.coin()) j.set("Elastic Properties Penalty Exponent", q.pe.p = r.uni(1, 3)); if (r.coin()) j.set("Elastic Properties Minimum Ersatz", q.pe.mn = r.uni(0.001, 0.1)); if (r.coin()) j.set("Plastic Properties Penalty Exponent", q.pl.p = r.uni(0.5, 3)); if (r.coin()) j.set("Plastic Properties Minimum Ersatz", q.pl.mn = r.uni(0.001, 0.1)); mt.push_back(q); }
    p.sublist("Spatial Model") = spatial(g, nm); p.sublist("State Gradient Projection").sublist("Penalty Function") = pp.list();
    PL nat; genLoads(r, g, nat, "Mechanical Natural Boundary Conditions", 0, d, -1, !fixed, ls); if (th) genLoads(r, g, nat, "Thermal Natural Boundary Conditions", d, 1, -1, false, ls); if (ls.size() || r.coin()) p.sublist("Natural Boundary Conditions") = nat; if (!fixed) genBody(r, p, nd, bs); }
  const Mt& m(const Geo& h, int e) const { return mt[h.blockOf[e] % nb]; }
  T3 total(const Geo& h, const Cell& q, const D& u) const { D s = strain(h, q, u, nd); T3 t{}; for (int i = 0; i < nvoigt(d); ++i) { auto v = vij(d, i); t[v.first * 3 + v.second] = t[v.second * 3 + v.first] = v.first == v.second ? s[i] : 0.5 * s[i]; } return t; }
  double thermal(const Geo& h, int e, const Cell& q, const D& u) const { if (!th) return 0; double T = 0; for (int n : q.v) T += u[n * nd + d] / (d + 1); auto& w = m(h, e); return w.al * (sT * T - w.T0); }
  T3 elastic(const Geo& h, int e, const Cell& q, const D& u, const double* c) const { T3 t = lin(1, total(h, q, u), -1, tens(c + 2, true)); double a = thermal(h, e, q, u); t[0] -= a; t[4] -= a; t[8] -= a; return t; }
  // the state after a step: elastic if the trial stress is inside the yield surface, else returned to it
  void back(const Geo& h, int e, const D& u, const D& z, const double* cp, double* c, double* margin = nullptr) const { auto q = cell(h, e); auto& w = m(h, e); double rho = nodeAvg(q, z), pe = w.pe(rho), pl = w.pl(rho); T3 x = lin(2 * pe * w.G, dev(elastic(h, e, q, u, cp)), -1, tens(cp + 2 + NS, false)); double nr = std::sqrt(dd(x, x)), f = std::sqrt(1.5) * nr - pl * (w.sy + w.Hi * cp[0]); if (margin) *margin = std::min(*margin, std::fabs(f)); for (int i = 0; i < NL; ++i) c[i] = cp[i]; c[1] = 0; if (f <= 1e-10) return;
    double dg = f / (3 * pe * w.G + pl * (w.Hi + w.Hk)); T3 n = x; for (auto& v : n) v /= nr; c[0] = cp[0] + dg; c[1] = dg; put(lin(1, tens(cp + 2, true), std::sqrt(1.5) * dg, n), c + 2, true); put(lin(1, tens(cp + 2 + NS, false), std::sqrt(2. / 3) * pl * w.Hk * dg, n), c + 2 + NS, false); }
  D back(const Geo& h, const D& u, const D& z, const D& cp, double* margin = nullptr) const { D c(cp.size()); for (int e = 0; e < h.ne(); ++e) back(h, e, u, z, &cp[e * NL], &c[e * NL], margin); return c; }
  D local(const Geo& h, const D& u, const D& c, const D& cp, const D& z) const { D R(c.size()); for (int e = 0; e < h.ne(); ++e) { const double *a = &c[e * NL], *b = &cp[e * NL]; double* o = &R[e * NL]; for (int i = 0; i < NL; ++i) o[i] = a[i] - b[i]; o[1] = a[1]; if (!(a[1] > 0)) continue; auto q = cell(h, e); auto& w = m(h, e); double rho = nodeAvg(q, z), pe = w.pe(rho), pl = w.pl(rho); T3 x = lin(2 * pe * w.G, dev(elastic(h, e, q, u, a)), -1, tens(a + 2 + NS, false)), n = x; double nr = std::sqrt(dd(x, x)); for (auto& v : n) v /= nr; o[0] -= a[1]; o[1] = std::sqrt(1.5) * nr - pl * (w.sy + w.Hi * a[0]); D y(NS); put(n, y.data(), true); for (int i = 0; i < NS; ++i) o[2 + i] -= std::sqrt(1.5) * a[1] * y[i]; put(n, y.data(), false); for (int i = 0; i < NS; ++i) o[2 + NS + i] -= std::sqrt(2. / 3) * pl * w.Hk * a[1] * y[i]; } return R; }
  D global(const Geo& h, const D& u, const D& c, const D& pi, const D& z, double load, const Geo* at = nullptr, bool natural = true) const { D R(h.nn() * nd, 0.0), L(R); for (int e = 0; e < h.ne(); ++e) { auto q = cell(h, e); auto& w = m(h, e); double P = pn(nodeAvg(q, z)), pr = 0; for (int n : q.v) pr += S * u[n * nd + pd] / (d + 1); T3 s = dev(elastic(h, e, q, u, &c[e * NL])); D st(nvoigt(d)); for (int i = 0; i < nvoigt(d); ++i) { auto v = vij(d, i); st[i] = 2 * P * w.G * s[v.first * 3 + v.second] + (v.first == v.second ? pr : 0); } addStress(h, q, st, R, nd, 0, q.vol);
      double vol = S * (trace(total(h, q, u)) - 3 * thermal(h, e, q, u) - pr / (P * w.K)); for (int n : q.v) R[n * nd + pd] += vol * q.vol / (d + 1); D gp = grad(h, q, u, nd, pd), f(d); for (int i = 0; i < d; ++i) { double a = 0; for (int n : q.v) a += pi[n * d + i] / (d + 1); f[i] = P * S * std::pow(q.vol, 2.0 / 3) / (2 * w.G) * (S * gp[i] - a); } addFlux(h, q, f, R, nd, pd, -q.vol); if (th) { D gt = grad(h, q, u, nd, d); for (auto& y : gt) y *= P * w.k * sT; addFlux(h, q, gt, R, nd, d, q.vol); } }
    addLoads(h, natural ? ls : std::vector<Load>(), bs, z, L, nd, at); for (size_t i = 0; i < R.size(); ++i) R[i] += load * L[i]; return R; }
  // stress of the elastic strain, with the criterion's own penalty
  T3 cauchy(const Geo& h, int e, const Cell& q, const D& u, const double* c, double P) const { auto& w = m(h, e); T3 s = elastic(h, e, q, u, c), t = s; double v = QUIRK ? s[0] + s[4] + 2 * s[5] : trace(s); for (auto& x : t) x *= 2 * P * w.G; for (int i = 0; i < 9; i += 4) t[i] += P * (w.K - 2 * w.G / 3) * v; return t; }
  D lumped(const Geo& h, const D& u, const D& z) const { D N(h.nn() * d, 0.0), W(h.nn(), 0.0); for (int e = 0; e < h.ne(); ++e) { auto q = cell(h, e); double c = pp(nodeAvg(q, z)) * q.vol; D gp = grad(h, q, u, nd, pd); for (int n : q.v) { W[n] += c; for (int i = 0; i < d; ++i) N[n * d + i] += c * S * gp[i]; } } for (int n = 0; n < h.nn(); ++n) for (int i = 0; i < d; ++i) N[n * d + i] /= W[n]; return N; } };
static D ctrl(Rng& r, const Geo& g) { D z = uni(r, g.nn(), 0.3, 1.0); if (r.coin(0.2)) for (auto& x : z) x = 1; return z; }
// work criteria: one step's contribution
using Work = std::function<double(const Geo&, const D&, const D&, const D&, const D&, const D&)>; // mesh, u, previous u, c, previous c, z
static Work work(const Setup& s, bool plastic, Pen p, double mult) { return [&s, plastic, p, mult](const Geo& h, const D& u, const D& up, const D& c, const D& cp, const D& z) { double W = 0; for (int e = 0; e < h.ne(); ++e) { auto q = cell(h, e); double P = p(nodeAvg(q, z)); const double *a = &c[e * NL], *b = &cp[e * NL]; T3 sg = lin(0.5, s.cauchy(h, e, q, u, a, P), 0.5, s.cauchy(h, e, q, up, b, P)); T3 de = plastic ? lin(1, tens(a + 2, true), -1, tens(b + 2, true)) : lin(1, s.elastic(h, e, q, u, a), -1, s.elastic(h, e, q, up, b)); W += mult * q.vol * dd(sg, de); } return W; }; }
struct Cr { std::string name; Work f; };
static Cr criteria(Rng& r, const Setup& s, PL& p) { PL& l = p.sublist("Criteria"); std::vector<Cr> v; int n = r.in(1, 3); for (int i = 0; i < n; ++i) { bool pl = r.coin(); Pen q = simp(r, 3.0, 1e-9); PL& k = l.sublist(str("w", i)); k.set("Type", std::string("Scalar Function")); k.set("Scalar Function Type", std::string(pl ? "Plastic Work" : "Elastic Work")); PL& f = k.sublist("Penalty Function"); f.set("Type", std::string("SIMP")); if (r.coin()) f.set("Exponent", q.p = r.uni(1, 3)); if (r.coin()) f.set("Minimum Value", q.mn = r.uni(0.001, 0.1)); double m = 1; if (r.coin(0.3)) k.set("Multiplier", m = r.uni(-2, 2)); v.push_back({str("w", i), work(s, pl, q, m)}); }
  if (r.coin()) return v[0]; PL& k = l.sublist("sum"); k.set("Type", std::string("Weighted Sum")); Teuchos::Array<std::string> nm; D w; for (auto& c : v) { nm.push_back(c.name); w.push_back(r.uni(-2, 2)); } k.set("Functions", nm); k.set("Weights", arr(w)); return {"sum", [=](const Geo& h, const D& u, const D& up, const D& c, const D& cp, const D& z) { double t = 0; for (size_t i = 0; i < v.size(); ++i) t += w[i] * v[i].f(h, u, up, c, cp, z); return t; }}; }
// assembled Jacobians from cell blocks: rows/columns that are nodal (n dofs per node) or local to the cell (n = 0)
static M gather(const Plato::ScalarArray3D& w, const Geo& g, int ra, int rb) { M A(ra ? g.nn() * ra : g.ne() * NL, rb ? g.nn() * rb : g.ne() * NL); for (int e = 0; e < g.ne(); ++e) { auto q = cell(g, e); auto at = [&](int i, int n) { return n ? q.v[i / n] * n + i % n : e * NL + i; }; for (size_t i = 0; i < w.extent(1); ++i) for (size_t j = 0; j < w.extent(2); ++j) A(at(i, ra), at(j, rb)) += w(e, i, j); } return A; }
static D gather(const Plato::ScalarMultiVector& w, const Geo& g, int ra) { D A(ra ? g.nn() * ra : g.ne() * NL, 0.0); for (int e = 0; e < g.ne(); ++e) { auto q = cell(g, e); for (size_t i = 0; i < w.extent(1); ++i) A[ra ? q.v[i / ra] * ra + i % ra : e * NL + i] += w(e, i); } return A; }
template <class Phys> static void functions(Ctx& c, bool th, int n2, int n3) { auto& r = c.rng; for (int it = 0; it < c.n(d == 2 ? n2 : n3, 300); ++it) { Setup s(r, th, false); Geo& g = s.g; int nd = s.nd; const std::string& k = s.k; Cr cr = criteria(r, s, s.p); static const char* OUT[7] = {"plastic multiplier increment", "accumulated plastic strain", "deviatoric stress", "elastic strain", "plastic strain", "cauchy stress", "backstress"}; std::vector<int> want; { Teuchos::Array<std::string> pl; for (int i = 0; i < 7; ++i) if (r.coin(0.6)) { want.push_back(i); pl.push_back(OUT[i]); } if (want.size()) s.p.sublist("Elliptic").set("Plottable", pl); }
    D u = uni(r, g.nn() * nd, -0.5, 0.5), up = uni(r, g.nn() * nd, -0.5, 0.5), a = uni(r, g.ne() * NL, -0.3, 0.3), b = uni(r, g.ne() * NL, -0.3, 0.3), pi = uni(r, g.nn() * d), z = ctrl(r, g); bool tame = r.coin(0.7); double L = r.coin(0.2) ? 0 : r.uni(0.1, 2); for (int e = 0; e < g.ne(); ++e) { a[e * NL + 1] = r.coin() ? -0.2 : r.uni(0.05, 0.3); b[e * NL] = std::fabs(b[e * NL]); if (tame) { put(dev(tens(&b[e * NL + 2], true)), &b[e * NL + 2], true); put(dev(tens(&b[e * NL + 2 + NS], false)), &b[e * NL + 2 + NS], false); } }
    c.begin(str("functions ", k, " ", cr.name, " ", g.desc, " loads ", s.ls.size(), " bodies ", s.bs.size(), " L ", L, " u0 ", u[0])); Quiet quiet; PL p(s.p); Plato::DataMap dm; Plato::SpatialModel sm(g.mesh, g.sets, p); V1 U = mk1(u), Up = mk1(up), A = mk1(a), B = mk1(b), Z = mk1(z), Pi = mk1(pi); auto untouched = [&] { same(c, get(U), u, k + "-input-untouched"); same(c, get(Up), up, k + "-input-untouched"); same(c, get(A), a, k + "-input-untouched"); same(c, get(B), b, k + "-input-untouched"); same(c, get(Z), z, k + "-input-untouched"); same(c, get(Pi), pi, k + "-input-untouched"); };
    auto jac = [&](const M& J, std::function<D(const D&)> f, const D& x, double h, const std::string& key, double sc = 1) { D r0 = f(x); if (!c.check(J.r == (int)r0.size() && J.c == (int)x.size(), key + "-shape", str(J.r, "x", J.c, " for ", r0.size(), "x", x.size()))) return; for (int t = 0; t < 2; ++t) { D dx = uni(r, x.size()); for (auto& y : dx) y *= sc; near_(c, mulv(J, dx), fdir(f, x, dx, h), key, 1e-6, std::max(1e-3, sc * amax(J.a))); } }; auto moved = [&](const D& y) { Geo h(g); h.xyz = y; return h; };
    { Plato::LocalVectorFunctionInc<typename Phys::LocalPhysicsT> F(sm, dm, p); c.check(F.size() == g.ne() * NL && F.numCells() == g.ne(), k + "-local-sizes"); D R = get(F.value(U, Up, A, B, Z)); near_(c, R, s.local(g, u, a, b, z), k + "-local-residual", 1e-10, 1.0); { auto W = F.valueWorkSet(U, Up, A, B, Z); D y; for (int e = 0; e < g.ne(); ++e) for (int i = 0; i < NL; ++i) y.push_back(W(e, i)); near_(c, y, s.local(g, u, a, b, z), k + "-local-workset", 1e-10, 1.0); }
      jac(gather(F.gradient_u(U, Up, A, B, Z), g, 0, nd), [&](const D& y) { return s.local(g, y, a, b, z); }, u, 1e-3, k + "-local-jac-u"); jac(gather(F.gradient_up(U, Up, A, B, Z), g, 0, nd), [&](const D&) { return s.local(g, u, a, b, z); }, up, 1e-3, k + "-local-jac-up"); jac(gather(F.gradient_c(U, Up, A, B, Z), g, 0, 0), [&](const D& y) { return s.local(g, u, y, b, z); }, a, 1e-3, k + "-local-jac-c"); jac(gather(F.gradient_cp(U, Up, A, B, Z), g, 0, 0), [&](const D& y) { return s.local(g, u, a, y, z); }, b, 1e-3, k + "-local-jac-cp"); jac(gather(F.gradient_z(U, Up, A, B, Z), g, 0, 1), [&](const D& y) { return s.local(g, u, a, b, y); }, z, 1e-3, k + "-local-jac-z"); jac(gather(F.gradient_x(U, Up, A, B, Z), g, 0, d), [&](const D& y) { return s.local(moved(y), u, a, b, z); }, g.xyz, 1e-2, k + "-local-jac-x", 0.05); untouched();
      V1 C = mk1(uni(r, g.ne() * NL)); F.updateLocalState(U, Up, C, B, Z); D e = s.back(g, u, z, b); near_(c, get(C), e, k + "-return", 1e-9, 1.0); untouched(); int pl = 0; for (int q = 0; q < g.ne(); ++q) pl += e[q * NL + 1] > 0; c.check(true, pl == 0 ? k + "-seen-elastic" : pl == g.ne() ? k + "-seen-plastic" : k + "-seen-mixed"); if (tame) near_(c, get(F.value(U, Up, C, B, Z)), D(g.ne() * NL, 0.0), k + "-return-satisfies-residual", 1e-8, 1.0); V1 C2 = mk1(e); F.updateLocalState(U, Up, C2, B, Z); near_(c, get(C2), e, k + "-return-repeatable", 1e-9, 1.0); }
    { Plato::GlobalVectorFunctionInc<Phys> F(sm, dm, p, "Elliptic"); c.check(F.size() == g.nn() * nd && F.numNodes() == g.nn() && F.numCells() == g.ne() && F.numGlobalDofsPerNode() == nd && F.numLocalDofsPerCell() == NL && F.numNodeStatePerNode() == d, k + "-sizes"); near_(c, get(F.value(U, Up, A, B, Pi, Z)), s.global(g, u, a, pi, z, 1.0), k + "-residual-full-load", 1e-10, 1.0); dm.mScalarValues["LoadControlConstant"] = L; D R = get(F.value(U, Up, A, B, Pi, Z)); near_(c, R, s.global(g, u, a, pi, z, L), k + "-residual", 1e-10, 1.0);
      for (int w : want) { D exp; for (int e = 0; e < g.ne(); ++e) { auto q = cell(g, e); const double* x = &a[e * NL]; double P = s.pn(nodeAvg(q, z)); T3 t{}; bool eng = false; if (w == 0) exp.push_back(x[1]); if (w == 1) exp.push_back(x[0]); if (w < 2) continue; if (w == 2) { t = dev(s.elastic(g, e, q, u, x)); for (auto& y : t) y *= 2 * P * s.m(g, e).G; } if (w == 3) { t = s.elastic(g, e, q, u, x); eng = true; } if (w == 4) { t = tens(x + 2, true); eng = true; } if (w == 5) t = s.cauchy(g, e, q, u, x, P); if (w == 6) t = tens(x + 2 + NS, false); D y(NS); put(t, y.data(), eng); exp.insert(exp.end(), y.begin(), y.end()); } std::string n = OUT[w]; if (w < 2) { if (c.check(dm.scalarVectors.count(n) == 1, k + "-output-present", n)) near_(c, get(dm.scalarVectors.at(n)), exp, k + "-output " + n, 1e-10, 1.0); } else if (c.check(dm.scalarMultiVectors.count(n) == 1, k + "-output-present", n)) near_(c, get(dm.scalarMultiVectors.at(n)), exp, k + "-output " + n, 1e-10, 1.0); }
      jac(gather(F.gradient_u(U, Up, A, B, Pi, Z), g, nd, nd), [&](const D& y) { return s.global(g, y, a, pi, z, L); }, u, 1e-3, k + "-jac-u"); jac(gather(F.gradient_up(U, Up, A, B, Pi, Z), g, nd, nd), [&](const D&) { return R; }, up, 1e-3, k + "-jac-up"); jac(gather(F.gradient_c(U, Up, A, B, Pi, Z), g, nd, 0), [&](const D& y) { return s.global(g, u, y, pi, z, L); }, a, 1e-3, k + "-jac-c"); jac(gather(F.gradient_cp(U, Up, A, B, Pi, Z), g, nd, 0), [&](const D&) { return R; }, b, 1e-3, k + "-jac-cp"); jac(gather(F.gradient_z(U, Up, A, B, Pi, Z), g, nd, 1), [&](const D& y) { return s.global(g, u, a, pi, y, L); }, z, 1e-3, k + "-jac-z"); jac(gather(F.gradient_x(U, Up, A, B, Pi, Z), g, nd, d), [&](const D& y) { return s.global(moved(y), u, a, pi, z, L, &g); }, g.xyz, 1e-2, k + "-jac-x", 0.05); M NT = dense(c, F.gradient_n_T_assembled(U, Up, A, B, Pi, Z), k + "-gnt"); jac(tr(NT), [&](const D& y) { return s.global(g, u, a, y, z, L); }, pi, 1e-3, k + "-jac-n"); untouched(); near_(c, get(F.value(U, Up, A, B, Pi, Z)), R, k + "-repeatable", 0); }
    { Plato::PathDependentScalarFunctionFactory<Phys> fac; auto F = fac.create(sm, dm, p, cr.name); c.check(F->name() == cr.name, k + "-criterion-name"); double v = F->value(U, Up, A, B, Z), w = cr.f(g, u, up, a, b, z); c.check(std::fabs(v - w) <= 1e-10 * std::max(1.0, std::fabs(w)), k + "-criterion", str(v, " expected ", w)); auto gr = [&](const D& G, std::function<double(const D&)> f, const D& x, double h, const std::string& key, double sc = 1) { if (!c.check(G.size() == x.size(), key + "-size")) return; for (int t = 0; t < 2; ++t) { D dx = uni(r, x.size()); for (auto& y : dx) y *= sc; double e = fdir([&](const D& y) { return D{f(y)}; }, x, dx, h)[0], o = dot(G, dx); c.check(std::fabs(e - o) <= 1e-6 * std::max({1.0, std::fabs(e), sc * amax(G)}), key, str(o, " expected ", e)); } };
      gr(gather(F->gradient_u(U, Up, A, B, Z), g, nd), [&](const D& y) { return cr.f(g, y, up, a, b, z); }, u, 1e-3, k + "-criterion-u"); gr(gather(F->gradient_up(U, Up, A, B, Z), g, nd), [&](const D& y) { return cr.f(g, u, y, a, b, z); }, up, 1e-3, k + "-criterion-up"); gr(gather(F->gradient_c(U, Up, A, B, Z), g, 0), [&](const D& y) { return cr.f(g, u, up, y, b, z); }, a, 1e-3, k + "-criterion-c"); gr(gather(F->gradient_cp(U, Up, A, B, Z), g, 0), [&](const D& y) { return cr.f(g, u, up, a, y, z); }, b, 1e-3, k + "-criterion-cp"); gr(gather(F->gradient_z(U, Up, A, B, Z), g, 1), [&](const D& y) { return cr.f(g, u, up, a, b, y); }, z, 1e-3, k + "-criterion-z"); { auto W = F->gradient_x(U, Up, A, B, Z); if (c.check((int)W.extent(1) == (d + 1) * d, k + "-criterion-x-shape")) gr(gather(W, g, d), [&](const D& y) { return cr.f(moved(y), u, up, a, b, z); }, g.xyz, 1e-2, k + "-criterion-x", 0.05); } untouched(); } } }
SIM_GROUP(functions) { c.begin("Cauchy stress of a pure yz shear strain in three dimensions"); c.check(!QUIRK, "plasticity-cauchy-stress-3d-trace-takes-shear-yz", "normal stress is not zero"); functions<Plato::InfinitesimalStrainPlasticity<VDIM>>(c, false, 30, 8); }
SIM_GROUP(thermofunctions) { functions<Plato::InfinitesimalStrainThermoPlasticity<VDIM>>(c, true, 30, 8); }
static std::vector<D> rows(const Plato::ScalarMultiVector& s) { std::vector<D> o; for (size_t i = 0; i < s.extent(0); ++i) { D a; for (size_t j = 0; j < s.extent(1); ++j) a.push_back(s(i, j)); o.push_back(a); } return o; }
static Plato::ScalarMultiVector pack(const std::vector<D>& v) { Plato::ScalarMultiVector w("rows", v.size(), v[0].size()); for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v[i].size(); ++j) w(i, j) = v[i][j]; return w; }
// a load history: one state per step, and the factorised tangent at each of them for tracking nearby histories
struct History { const Setup& s; double dt; std::map<int, double> bc, rate; std::vector<D> U, C; std::vector<M> K; std::vector<int> fr; std::vector<bool> flow;
  double value(int i, int step) const { auto a = bc.at(i); double v = a + rate.at(i) * dt * (step + 1); int q = i % s.nd; return q == s.pd ? v / s.S : s.th && q == d ? v / s.sT : v; }
  void init() { fr.clear(); for (int i = 0; i < s.g.nn() * s.nd; ++i) if (!bc.count(i)) fr.push_back(i); }
  D res(const Geo& h, const D& u, const D& cp, const D& pi, const D& z, int step) const { D R = s.global(h, u, s.back(h, u, z, cp), pi, z, dt * (step + 1), &s.g), q; for (int i : fr) q.push_back(R[i]); return q; }
  bool factor(const D& z) { K.clear(); D cp(s.g.ne() * NL, 0.0), pi(s.g.nn() * d, 0.0); for (size_t k = 0; k < U.size(); ++k) { int n = fr.size(); M A(n, n); for (int j = 0; j < n; ++j) { D a(U[k]), b(a); a[fr[j]] += 1e-6; b[fr[j]] -= 1e-6; D x = res(s.g, a, cp, pi, z, k), y = res(s.g, b, cp, pi, z, k); for (int i = 0; i < n; ++i) A(i, j) = (x[i] - y[i]) / 2e-6; } M Ai; if (!inverse(A, Ai) || amax(Ai.a) > 1e6) return false; K.push_back(Ai); cp = C[k]; pi = s.lumped(s.g, U[k], z); } flow = pattern(C); return true; }
  std::vector<bool> pattern(const std::vector<D>& c) const { std::vector<bool> f; for (auto& x : c) for (int e = 0; e < s.g.ne(); ++e) f.push_back(x[e * NL + 1] > 0); return f; }
  bool track(const Geo& h, const D& z, std::vector<D>& u, std::vector<D>& c) const { D cp(h.ne() * NL, 0.0), pi(h.nn() * d, 0.0); u = U; c = C; for (size_t k = 0; k < U.size(); ++k) { bool ok = false; for (int i = 0; i < 60 && !ok; ++i) ok = Sol::step(u[k], fr, K[k], res(h, u[k], cp, pi, z, k)); if (!ok) return false; c[k] = s.back(h, u[k], z, cp); cp = c[k]; pi = s.lumped(h, u[k], z); } return pattern(c) == flow; } };
static double along(const Setup& s, const Cr& cr, const Geo& h, const std::vector<D>& u, const std::vector<D>& c, const D& z) { double t = 0; for (size_t k = 0; k < u.size(); ++k) t += cr.f(h, u[k], k ? u[k - 1] : D(u[k].size(), 0.0), c[k], k ? c[k - 1] : D(c[k].size(), 0.0), z); return t; }
template <class Phys> static void problem(Ctx& c, bool th, int n2, int n3) { auto& r = c.rng; int runs = 0, solved = 0; for (int it = 0; it < c.n(d == 2 ? n2 : n3, 200); ++it) { Setup s(r, th, true); Geo& g = s.g; PL& p = s.p; const std::string& k = s.k; Cr cr = criteria(r, s, p); History H{s}; genBcs(r, g, p, s.nd, H.bc, r.coin(0.3), &H.rate); H.init(); int N = r.in(1, 5), NX = r.coin(0.2) ? N - r.in(0, 1) : N * 8; if (NX < 1) NX = 1; double T = r.coin(0.3) ? 1.0 : r.uni(0.1, 0.8), mul = 2; PL& ts = p.sublist("Time Stepping"); ts.set("Initial Num. Pseudo Time Steps", N); ts.set("Maximum Num. Pseudo Time Steps", NX); if (T != 1 || r.coin()) ts.set("End Time", T); if (r.coin()) ts.set("Expansion Multiplier", mul = r.coin() ? 2.0 : 3.0); PL& nr = p.sublist("Newton-Raphson"); nr.set("Stopping Tolerance", 1e-12); nr.set("Current Residual Norm Stopping Tolerance", 1e-11); bool few = r.coin(0.15); nr.set("Maximum Number Iterations", few ? r.in(1, 4) : 25); runs += !few; bool rel = r.coin(0.2); if (rel || r.coin()) nr.set("Stopping Measure", std::string(rel ? "relative residual norm" : "absolute residual norm"));
    D z = ctrl(r, g), z2 = ctrl(r, g); c.begin(str("problem ", k, " ", cr.name, " ", g.desc, " steps ", N, " to ", NX, " end ", T, " bcs ", H.bc.size(), " loads ", s.ls.size(), " bodies ", s.bs.size(), " scales ", s.S, " ", s.sT, " z0 ", z[0])); Quiet quiet; PL pp(p); Plato::PlasticityProblem<Phys> P(g.mesh, g.sets, pp, machine()); P.readEssentialBoundaryConditions(pp); V1 Z = mk1(z); c.check(P.getNumSolutionDofs() == g.nn() * s.nd, k + "-problem-sizes");
    auto judge = [&](const D& zz, const std::string& w) { try { H.U = rows(P.solution(mk1(zz)).State); } catch (const std::exception&) { c.check(true, k + w + "-seen-solver-error"); return false; } H.C = rows(P.getLocalState()); int n = H.U.size(); bool ok = c.check(n >= std::min(N, NX) && n <= std::max(N, NX) && (int)H.C.size() == n, k + w + "-steps", str(n, " of ", N, " to ", NX)); if (!ok) return false; H.dt = T / n; bool refused = false; try { P.criterionValue(mk1(zz), cr.name); } catch (const std::exception&) { refused = true; } c.check(true, refused ? k + w + "-seen-no-convergence" : k + w + "-seen-convergence"); if (refused) return false;
      D cp(g.ne() * NL, 0.0), pi(g.nn() * d, 0.0); for (int q = 0; q < n; ++q) { double e = 0; for (auto& b : H.bc) e = std::max(e, std::fabs(H.U[q][b.first] - H.value(b.first, q))); ok = c.check(e <= 1e-9, k + w + "-essential-conditions", str("step ", q, " of ", n, " off by ", e)) && ok; ok = near_(c, H.C[q], s.back(g, H.U[q], zz, cp), k + w + "-local-state", 1e-8, 1.0, str("step ", q)) && ok; D R = H.res(g, H.U[q], cp, pi, zz, q); ok = near_(c, R, D(R.size(), 0.0), k + w + "-equilibrium", 1e-8, std::max(1.0, amax(H.U[q])), str("step ", q)) && ok; cp = H.C[q]; pi = s.lumped(g, H.U[q], zz); } return ok; };
    if (!judge(z, "-solution")) continue; solved += !few; auto U = H.U, C = H.C; int n = U.size(); { int f = 0; for (bool b : H.pattern(C)) f += b; c.check(true, f == 0 ? k + "-history-elastic" : k + "-history-flows"); if (n > N) c.check(true, k + "-history-refined"); }
    if (r.coin(0.3)) { judge(z2, "-second-solution"); if (!judge(z, "-solution-again")) continue; if (c.check((int)H.U.size() >= n, k + "-steps-kept") && (int)H.U.size() == n) for (int q = 0; q < n; ++q) { near_(c, H.U[q], U[q], k + "-history-free", 1e-7, 1.0); near_(c, H.C[q], C[q], k + "-history-free", 1e-7, 1.0); } U = H.U; C = H.C; n = U.size(); }
    double w = along(s, cr, g, U, C, z), sc = std::max(1.0, std::fabs(w)); Plato::Solution own(pack(U)); bool ex = r.coin(); double v = ex ? P.criterionValue(Z, own, cr.name) : P.criterionValue(Z, cr.name); c.check(std::fabs(v - w) <= 1e-9 * sc, k + "-criterion-value", str(v, " expected ", w));
    { size_t b = Omega_h::written().size(); P.saveStates("out"); auto& W = Omega_h::written(); if (c.check((int)(W.size() - b) == n, k + "-saved-steps")) { D pi(g.nn() * d, 0.0); for (int q = 0; q < n; ++q) { auto& o = W[b + q]; auto f = [&](const char* nm) { auto i = o.fields.find({0, nm}); return i == o.fields.end() ? D() : D(i->second); }; D pr, di, te, rf, I = s.global(g, U[q], C[q], pi, z, 0.0); pi = s.lumped(g, U[q], z); for (int m = 0; m < g.nn(); ++m) { pr.push_back(s.S * U[q][m * s.nd + s.pd]); if (th) te.push_back(s.sT * U[q][m * s.nd + d]); double t = 0; for (int i = 0; i < d; ++i) { di.push_back(U[q][m * s.nd + i]); t += I[m * s.nd + i]; } rf.push_back(t); } near_(c, f("Pressure"), pr, k + "-saved-pressure", 1e-12); near_(c, f("Displacements"), di, k + "-saved-displacements", 1e-12); if (th) near_(c, f("Temperature"), te, k + "-saved-temperature", 1e-12); near_(c, f("Reaction Force"), rf, k + "-saved-reaction-force", 1e-8, 1.0); c.check(std::fabs(o.time - H.dt * (q + 1)) <= 1e-12, k + "-saved-time"); } } Omega_h::written().clear(); }
    { Plato::ScalarVector none; c.rejects([&] { P.criterionValue(Z, "missing"); }, k + "-rejects-unknown-criterion"); c.rejects([&] { P.criterionGradient(Z, "missing"); }, k + "-rejects-unknown-criterion"); c.rejects([&] { P.criterionGradientX(Z, own, "missing"); }, k + "-rejects-unknown-criterion"); c.rejects([&] { P.solution(none); }, k + "-rejects-empty-control"); c.rejects([&] { P.criterionGradient(none, cr.name); }, k + "-rejects-empty-control"); c.rejects([&] { P.criterionValue(Z, Plato::Solution(Plato::ScalarMultiVector()), cr.name); }, k + "-rejects-empty-state"); PL q(p); q.remove("Essential Boundary Conditions"); c.rejects([&] { P.readEssentialBoundaryConditions(q); }, k + "-rejects-missing-essential-conditions"); }
    if (H.factor(z)) { int order = r.in(0, 1); for (int o = 0; o < 2; ++o) { bool X = o == order; if (X && !s.fixed) continue; D gr = get(X ? (ex ? P.criterionGradientX(Z, own, cr.name) : P.criterionGradientX(Z, cr.name)) : (ex ? P.criterionGradient(Z, own, cr.name) : P.criterionGradient(Z, cr.name))); const char* nm = X ? "-total-gradient-x" : "-total-gradient-z"; if (!c.check((int)gr.size() == g.nn() * (X ? d : 1), k + nm + "-size")) continue;
      for (int t = 0; t < 2; ++t) { D dir = uni(r, gr.size()); if (t == 1) { std::fill(dir.begin(), dir.end(), 0.0); dir[r.in(0, dir.size() - 1)] = 1; } if (X) for (auto& x : dir) x *= 0.05; auto J = [&](const D& y) { std::vector<D> u, cc; Geo h(g); if (X) h.xyz = y; const D& zz = X ? z : y; if (!H.track(h, zz, u, cc)) return (double)NAN; return along(s, cr, h, u, cc, zz); };
        auto be = fbest(J, X ? g.xyz : z, dir, X ? 2e-3 : 5e-4); double a = dot(gr, dir), mm = 0; for (size_t i = 0; i < gr.size(); ++i) mm = std::max(mm, std::fabs(gr[i] * dir[i])); if (std::isnan(be.first) || be.second > 1e-4 * std::max(sc, mm)) { c.check(true, k + nm + "-unusable"); continue; } c.check(std::fabs(a - be.first) <= 2e-5 * std::max(sc, mm) + 10 * be.second, k + nm, str(a, " expected ", be.first, " spread ", be.second, " of ", mm)); } } }
    { auto U3 = rows(P.getGlobalSolution().State); for (int i = 0; i < n; ++i) near_(c, U3[i], U[i], k + "-state-after-gradients", 1e-12, 1.0); same(c, get(Z), z, k + "-control-untouched"); c.check(std::fabs(P.criterionValue(Z, cr.name) - v) <= 1e-12 * sc, k + "-criterion-after-gradients"); }
    { std::vector<D> a, b; for (int i = 0; i < n; ++i) { a.push_back(uni(r, g.nn() * s.nd, -0.5, 0.5)); b.push_back(uni(r, g.ne() * NL, -0.3, 0.3)); } double e = along(s, cr, g, a, b, z); P.setLocalState(pack(b)); double x = P.criterionValue(Z, Plato::Solution(pack(a)), cr.name); P.setGlobalSolution(Plato::Solution(pack(a))); double y = P.criterionValue(Z, cr.name); c.check(std::fabs(x - e) <= 1e-9 * std::max(1.0, std::fabs(e)) && std::fabs(y - e) <= 1e-9 * std::max(1.0, std::fabs(e)), k + "-criterion-of-given-states", str(x, " ", y, " expected ", e)); } } c.begin(str("solved ", solved, " of ", runs)); c.check(solved >= 0.6 * runs, std::string(th ? "thermo" : "mech") + "-most-histories-are-solved"); }
SIM_GROUP(problem) { problem<Plato::InfinitesimalStrainPlasticity<VDIM>>(c, false, 40, 10); }
SIM_GROUP(thermoproblem) { problem<Plato::InfinitesimalStrainThermoPlasticity<VDIM>>(c, true, 40, 10); }
