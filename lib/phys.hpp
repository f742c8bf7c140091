// Random material models of the four steady physics, with their unpenalised cell fields computed here.
#pragma once
#include "crit.hpp"
namespace phys {
using namespace crit;
using Fld = std::map<std::string, D>;
struct Model { std::string name; int nd = 0, nb = 1; bool nl = false; std::vector<std::string> mats; std::vector<PL> lists; D rho; std::function<Fld(const Geo&, int, const Cell&, const D&)> f; std::vector<Mat4> el; std::function<double(int, double)> cap; // heat capacity of a block at a temperature
  void put(PL& p, const Geo& g) const { for (int b = 0; b < nb; ++b) p.sublist("Material Models").sublist(mats[b]) = lists[b]; p.sublist("Spatial Model") = spatial(g, mats); } };
inline Model shell(const char* n, int nd, int nb) { Model m; m.name = n; m.nd = nd; m.nb = nb; for (int b = 0; b < nb; ++b) { m.mats.push_back(str("mat", b)); m.lists.push_back(PL()); m.rho.push_back(1.0); } return m; }
// a symmetric conductivity-like tensor, constant or quadratic in the temperature
inline void randTens(Rng& r, int d, PL& p, const std::string& nm, bool nl, std::vector<M>& k, double lo) { k.assign(3, M(d, d)); if (!nl && r.coin(0.4)) { double v = r.uni(lo, lo + 1); p.set(nm, v); for (int i = 0; i < d; ++i) k[0](i, i) = v; return; } PL& s = p.sublist(nm);
  for (int q = 0; q < (nl ? 3 : 1); ++q) { std::string pre = nl ? str("c", q) : "c"; double f = q == 0 ? 1 : q == 1 ? 0.3 : 0.1; for (int i = 0; i < d; ++i) { double v = f * r.uni(lo, lo + 1); s.set(str(pre, i + 1, i + 1), v); k[q](i, i) = v; for (int j = i + 1; j < d; ++j) if (r.coin()) { double o = f * r.uni(-0.3, 0.3); s.set(str(pre, i + 1, j + 1), o); k[q](i, j) = k[q](j, i) = o; } } } if (nl) p.set("Temperature Dependent", true); }
inline M at(const std::vector<M>& k, double T) { M m(k[0]); for (size_t i = 0; i < m.a.size(); ++i) m.a[i] += k[1].a[i] * T + k[2].a[i] * T * T; return m; }
inline double mises(int d, const D& s) { double a[6] = {s[0], s[1], 0, 0, 0, 0}; if (d == 3) for (int i = 0; i < 6; ++i) a[i] = s[i]; else a[5] = s[2]; return std::sqrt(0.5 * ((a[0] - a[1]) * (a[0] - a[1]) + (a[1] - a[2]) * (a[1] - a[2]) + (a[2] - a[0]) * (a[2] - a[0])) + 3 * (a[3] * a[3] + a[4] * a[4] + a[5] * a[5])); }
// eigenvalues of a small symmetric matrix by cyclic Jacobi rotations
inline D symEig(M A) { int n = A.r; for (int sweep = 0; sweep < 60; ++sweep) for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) { if (A(p, q) == 0) continue; double th = (A(q, q) - A(p, p)) / (2 * A(p, q)), t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1)), c = 1 / std::sqrt(t * t + 1), s = t * c; for (int k = 0; k < n; ++k) { double a = A(k, p), b = A(k, q); A(k, p) = c * a - s * b; A(k, q) = s * a + c * b; } for (int k = 0; k < n; ++k) { double a = A(p, k), b = A(q, k); A(p, k) = c * a - s * b; A(q, k) = s * a + c * b; } } D e; for (int i = 0; i < n; ++i) e.push_back(A(i, i)); return e; }
// strain (total), stress (with the material's reference strain), cstress (without), col: stiffness columns are el[b].C
inline Model mechanics(Rng& r, int d, int nb, int fam = -1) { Model m = shell("mechanics", d, nb); for (int b = 0; b < nb; ++b) { m.el.push_back(elastic(r, d, fam)); m.lists[b] = m.el[b].list; }
  auto el = m.el; m.f = [=](const Geo& h, int e, const Cell& q, const D& u) { auto& w = el[h.blockOf[e] % nb]; D s0 = strain(h, q, u, d), s = s0; for (size_t i = 0; i < s.size(); ++i) s[i] -= w.e0[i]; return Fld{{"strain", s0}, {"stress", mulv(w.C, s)}, {"cstress", mulv(w.C, s0)}}; }; return m; }
inline Model thermal(Rng& r, int d, int nb, double pnl = 0.5) { Model m = shell("thermal", 1, nb); std::vector<std::vector<M>> ks(nb); for (int b = 0; b < nb; ++b) { bool n = r.coin(pnl); m.nl = m.nl || n; randTens(r, d, m.lists[b].sublist("Thermal Conduction"), "Thermal Conductivity", n, ks[b], 0.5); }
  m.f = [=](const Geo& h, int e, const Cell& q, const D& u) { D tg = grad(h, q, u, 1, 0), f = mulv(at(ks[h.blockOf[e] % nb], nodeAvg(q, u)), tg); for (auto& x : f) x = -x; return Fld{{"tgrad", tg}, {"flux", f}}; }; return m; }
inline Model thermomechanics(Rng& r, int d, int nb, double pnl = 0.5) { const int nd = d + 1; Model M_ = shell("thermomechanics", nd, nb); bool nl = r.coin(pnl); M_.nl = nl;
  struct TM { M C[3]; std::vector<M> al, k; double s = 1, T0 = 23; }; std::vector<TM> ms(nb); for (int b = 0; b < nb; ++b) { TM& m = ms[b]; PL& l = M_.lists[b].sublist("Thermoelastic"); double nu = r.uni(-0.2, 0.4), E[3] = {r.uni(1, 3), nl ? r.uni(0, 0.3) : 0, nl ? r.uni(0, 0.1) : 0}; PL& es = l.sublist("Elastic Stiffness"); es.set("Poissons Ratio", nu); if (nl) { es.sublist("Youngs Modulus").set("c0", E[0]); es.sublist("Youngs Modulus").set("c1", E[1]); es.sublist("Youngs Modulus").set("c2", E[2]); } else es.set("Youngs Modulus", E[0]); for (int q = 0; q < 3; ++q) m.C[q] = iso(d, E[q], nu);
    randTens(r, d, l, "Thermal Conductivity", nl, m.k, 0.5); m.al.assign(3, M(d, d)); double a = r.uni(0.01, 0.5); l.set("Thermal Expansivity", a); for (int i = 0; i < d; ++i) m.al[0](i, i) = a; m.T0 = r.uni(-1, 1); l.set("Reference Temperature", m.T0); if (r.coin()) { m.s = r.uni(0.5, 2); l.set("Temperature Scaling", m.s); } if (nl) l.set("Temperature Dependent", true); }
  M_.f = [=](const Geo& h, int e, const Cell& q, const D& u) { auto& m = ms[h.blockOf[e] % nb]; double t = 0; for (int v : q.v) t += u[v * nd + d] / (d + 1); D s0 = strain(h, q, u, nd), s = s0; M al = at(m.al, t); for (int i = 0; i < d; ++i) s[i] -= m.s * al(i, i) * (t - m.T0);
    M C(m.C[0]); for (size_t i = 0; i < C.a.size(); ++i) C.a[i] += m.C[1].a[i] * t + m.C[2].a[i] * t * t; D st = mulv(C, s), tg = grad(h, q, u, nd, d), f = mulv(at(m.k, t), tg); for (auto& x : f) x *= m.s * m.s; return Fld{{"strain", s0}, {"stress", st}, {"tgrad", tg}, {"flux", f}}; }; return M_; }
inline Model electromechanics(Rng& r, int d, int nb) { const int nd = d + 1; Model M_ = shell("electromechanics", nd, nb); struct EM { M C, e, P; double a = 1; }; std::vector<EM> ms(nb);
  for (int b = 0; b < nb; ++b) { EM& m = ms[b]; PL& l = M_.lists[b].sublist("Isotropic Linear Electroelastic"); double E = r.uni(1, 3), nu = r.uni(-0.2, 0.4), e15 = r.uni(-1, 1), e31 = r.uni(-1, 1), e33 = r.uni(-1, 1), p11 = r.uni(0.5, 2), p33 = r.uni(0.5, 2); l.set("Youngs Modulus", E); l.set("Poissons Ratio", nu); l.set("e15", e15); l.set("e31", e31); l.set("e33", e33); l.set("p11", p11); l.set("p33", p33); if (r.coin()) { m.a = r.uni(0.5, 2); l.set("Alpha", m.a); }
    m.C = iso(d, E, nu); m.e = M(d, nvoigt(d)); m.P = M(d, d); for (int i = 0; i + 1 < d; ++i) { m.P(i, i) = p11; m.e(d - 1, i) = e31; } m.P(d - 1, d - 1) = p33; m.e(d - 1, d - 1) = e33; for (int k = d; k < nvoigt(d); ++k) { auto q = vij(d, k); if (q.second == d - 1) m.e(q.first, k) = e15; } }
  M_.f = [=](const Geo& h, int e, const Cell& q, const D& u) { auto& m = ms[h.blockOf[e] % nb]; D s = strain(h, q, u, nd), E = grad(h, q, u, nd, d); for (auto& x : E) x = -x; D t = mulv(m.C, s), t2 = mulv(tr(m.e), E); for (size_t i = 0; i < t.size(); ++i) t[i] -= m.a * t2[i]; D f = mulv(m.P, E), f2 = mulv(m.e, s); for (size_t i = 0; i < f.size(); ++i) f[i] = m.a * m.a * f[i] + m.a * f2[i]; return Fld{{"strain", s}, {"efield", E}, {"stress", t}, {"edisp", f}}; }; return M_; }
// density times specific heat, constant or temperature dependent
inline void heatMass(Rng& r, Model& m, double pnl = 0.5) { std::vector<D> co; for (int b = 0; b < m.nb; ++b) { bool nl = r.coin(pnl); m.nl = m.nl || nl; PL& l = m.lists[b].sublist("Thermal Mass"); if (nl) l.set("Temperature Dependent", true); const char* nm[2] = {"Mass Density", "Specific Heat"}; D a; for (int k = 0; k < 2; ++k) { double v[3] = {r.uni(0.5, 2), 0, 0}; if (nl && r.coin(0.7)) { PL& s = l.sublist(nm[k]); s.set("c0", v[0]); if (r.coin()) s.set("c1", v[1] = r.uni(-0.2, 0.2)); if (r.coin()) s.set("c2", v[2] = r.uni(0, 0.1)); } else l.set(nm[k], v[0]); a.insert(a.end(), v, v + 3); } co.push_back(a); }
  m.cap = [=](int b, double T) { auto& a = co[b % co.size()]; return (a[0] + a[1] * T + a[2] * T * T) * (a[3] + a[4] * T + a[5] * T * T); }; }
// sum over cells and steps of a cell integrand, then an optional power
using Dens = std::function<double(const Geo&, int, const Cell&, const Fld&, double)>; // fields, mean density
inline Ref integral(const Model& m, const Dens& q, double root = 1) { auto f = m.f; int nd = m.nd; return [=](const Geo& g, const D& u, const D& z) { double s = 0; int n = g.nn() * nd; for (size_t k = 0; k * n < u.size(); ++k) { D us(u.begin() + k * n, u.begin() + (k + 1) * n); for (int e = 0; e < g.ne(); ++e) { auto c = cell(g, e); s += q(g, e, c, f(g, e, c, us), nodeAvg(c, z)); } } return root == 1 ? s : std::pow(s, 1 / root); }; }
inline Crit leafOf(Gen& G, const char* type, const char* kind, const Pen* p, const Ref& f) { Crit c; c.kind = kind; c.name = G.fresh(kind); PL& l = G.list(c.name, "Scalar Function"); l.set("Scalar Function Type", std::string(type)); if (p) l.sublist("Penalty Function") = p->list(); c.f = f; return c; }
inline Crit pnorm(Gen& G, const Model& m, const char* field, Pen p, int) { auto& r = G.r; double ex = r.in(2, 6), rw = 1, sw = 1; int n = 0; bool w = r.coin(0.3); std::string fl = field; if (w) { rw = r.uni(0.5, 2); sw = r.uni(0.5, 2); } (void)n;
  Crit c = leafOf(G, "Stress P-Norm", "stresspnorm", &p, integral(m, [=](const Geo&, int, const Cell& q, const Fld& f, double z) { double s = dot(f.at(fl), f.at(fl)), t = p(z); double v = std::sqrt(s) * t; if (w) v = std::sqrt(sw * s) * t / rw; return std::pow(v, ex) * q.vol; }, ex)); PL& l = G.top.sublist("Criteria").sublist(c.name); l.set("Exponent", ex); if (w) { l.sublist("Normalize").set("Type", std::string("Scalar")); l.sublist("Normalize").sublist("Scalar").set("Reference Weight", rw); l.sublist("Normalize").sublist("Scalar").set("Scalar Product Weight", sw); } return c; }
// the mean over a node set of the weighted state of the last step
inline Crit solution(Gen& G, const Model& m) { auto& r = G.r; int nd = m.nd; bool mag = r.coin(); D n = uni(r, nd, -2, 2); std::string set = r.coin(0.2) ? "all" : "ns_" + r.pick(G.g->sides); Crit c; c.kind = mag ? "solution-magnitude" : "solution"; c.name = G.fresh("solution"); PL& l = G.list(c.name, "Solution"); l.set("Domain", set); if (mag || r.coin()) l.set("Magnitude", mag); if (nd > 1 || r.coin()) { if (nd > 1 && r.coin(0.3)) { int k = r.in(1, nd - 1); for (int i = k; i < nd; ++i) n[i] = 0; l.set("Normal", arr(D(n.begin(), n.begin() + k))); } else if (r.coin(0.2)) { D x(n); x.push_back(5); l.set("Normal", arr(x)); } else l.set("Normal", arr(n)); } else n[0] = 1;
  std::vector<int> ids; { auto s = G.g->sets[Omega_h::NODE_SET].at(set); for (int i = 0; i < s.size(); ++i) ids.push_back(s[i]); }
  c.f = [=](const Geo& g, const D& u, const D&) { int N = g.nn() * nd, o = (int)u.size() - N; double s = 0; for (int v : ids) { double t = 0; for (int i = 0; i < nd; ++i) { double x = n[i] * u[o + v * nd + i]; t += mag ? x * x : x; } s += mag ? std::sqrt(t) : t; } return s / ids.size(); }; return c; }
// random criteria of each physics (one: a single-step history)
inline Crit leafMechanics(Gen& G, const Model& m, bool one) { const int d = VDIM; (void)d; auto& r = G.r; Pen p = pen(r, true); int k = r.in(0, one ? 5 : 2); 
    if (k == 0) return leafOf(G, "Internal Elastic Energy", "elasticenergy", &p, integral(m, [=](const Geo&, int, const Cell& q, const Fld& f, double z) { return 0.5 * q.vol * p(z) * dot(f.at("stress"), f.at("strain")); }));
    if (k == 1) { D a = uni(r, nvoigt(d)); static std::map<const PL*, int> cols; PL& f = G.top.sublist("Cell Problem Forcing"); if (!f.isParameter("Column Index")) f.set("Column Index", r.in(0, nvoigt(d) - 1)); int col = f.get<int>("Column Index"); auto el = m.el; int nb = m.nb;
      Crit c = leafOf(G, "Effective Energy", "effectiveenergy", &p, integral(m, [=](const Geo& g, int e, const Cell& q, const Fld& f, double z) { auto& C = el[g.blockOf[e] % nb].C; double s = 0; for (int i = 0; i < nvoigt(d); ++i) s += (C(i, col) - f.at("cstress")[i]) * a[i]; return s * q.vol * p(z); })); G.top.sublist("Criteria").sublist(c.name).set("Assumed Strain", arr(a)); return c; }
    if (k == 2) { double A = r.coin(0.3) ? 1 : r.uni(0.5, 3); Crit c = leafOf(G, "Density Penalty", "densitypenalty", nullptr, integral(m, [=](const Geo&, int, const Cell&, const Fld&, double z) { return 0.5 * A * (1 - std::cos(2 * M_PI * z)); })); if (A != 1) G.top.sublist("Criteria").sublist(c.name).set("Penalty Amplitude", A); return c; }
    if (k == 3 && d == 3) { if (!G.top.isParameter("rho done")) { for (int b = 0; b < m.nb; ++b) G.top.sublist("Material Models").sublist(m.mats[b]).set("Density", 1.0 + 0.5 * b); G.top.set("rho done", true); } D rho; for (int b = 0; b < m.nb; ++b) rho.push_back(1.0 + 0.5 * b); return massProps(G, rho); }
    if (k == 4) return solution(G, m); return pnorm(G, m, "cstress", p, 0); }
inline Crit leafThermal(Gen& G, const Model& m, bool one) { const int d = VDIM; (void)d; auto& r = G.r; Pen p = pen(r); int k = r.in(0, one ? 2 : 0);
    if (k == 0) return leafOf(G, "Internal Thermal Energy", "thermalenergy", &p, integral(m, [=](const Geo&, int, const Cell& q, const Fld& f, double z) { return -q.vol * p(z) * dot(f.at("flux"), f.at("tgrad")); }));
    if (k == 1) return solution(G, m); double ex = r.in(2, 6); Crit c = leafOf(G, "Flux P-Norm", "fluxpnorm", &p, integral(m, [=](const Geo&, int, const Cell& q, const Fld& f, double z) { return q.vol * std::pow(p(z) * std::sqrt(dot(f.at("flux"), f.at("flux"))), ex); }, ex)); G.top.sublist("Criteria").sublist(c.name).set("Exponent", ex); return c; }
inline Crit leafThermomechanics(Gen& G, const Model& m, bool one) { const int d = VDIM; (void)d; auto& r = G.r; Pen p = pen(r); int k = r.in(0, one ? 2 : 1);
    if (k == 0) return leafOf(G, "Internal Thermoelastic Energy", "thermoelasticenergy", &p, integral(m, [=](const Geo&, int, const Cell& q, const Fld& f, double z) { return q.vol * p(z) * (dot(f.at("stress"), f.at("strain")) + dot(f.at("flux"), f.at("tgrad"))); }));
    if (k == 1) return leafOf(G, "Volume", "volume", &p, integral(m, [=](const Geo&, int, const Cell& q, const Fld&, double z) { return q.vol * p(z); })); return solution(G, m); }
inline Crit leafElectromechanics(Gen& G, const Model& m, bool one) { const int d = VDIM; (void)d; auto& r = G.r; Pen p = pen(r); int k = r.in(0, one ? 2 : 0);
    if (k == 0) return leafOf(G, "Internal Electroelastic Energy", "electroelasticenergy", &p, integral(m, [=](const Geo&, int, const Cell& q, const Fld& f, double z) { return q.vol * p(z) * (dot(f.at("stress"), f.at("strain")) - dot(f.at("edisp"), f.at("efield"))); }));
    if (k == 1) return solution(G, m); return pnorm(G, m, "stress", p, 0); }
}
