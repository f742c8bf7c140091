// An independent solution of R(u) = 0 with prescribed entries, from the residual alone: dense Newton, then chord iterations nearby.
#pragma once
#include "phys.hpp"
#include "loads.hpp"
namespace refsolve {
using namespace phys; using namespace loads;
inline bool inverse(M A, M& B) { int n = A.r; B = M(n, n); for (int i = 0; i < n; ++i) B(i, i) = 1; for (int k = 0; k < n; ++k) { int p = k; for (int i = k + 1; i < n; ++i) if (std::fabs(A(i, k)) > std::fabs(A(p, k))) p = i; double v = A(p, k); if (!(std::fabs(v) > 1e-12)) return false;
    if (p != k) for (int j = 0; j < n; ++j) { std::swap(A(p, j), A(k, j)); std::swap(B(p, j), B(k, j)); } for (int j = 0; j < n; ++j) { A(k, j) /= v; B(k, j) /= v; }
    for (int i = 0; i < n; ++i) if (i != k && A(i, k) != 0) { double f = A(i, k); for (int j = 0; j < n; ++j) { A(i, j) -= f * A(k, j); B(i, j) -= f * B(k, j); } } } return true; }
using Res = std::function<D(const Geo&, const D&, const D&)>;
struct Sol { Res R; bool nl = false; std::map<int, double> bc; std::vector<int> fr; M Ki; D u; double scale = 1;
  void setup(int n) { fr.clear(); for (int i = 0; i < n; ++i) if (!bc.count(i)) fr.push_back(i); u.assign(n, 0.0); for (auto& q : bc) u[q.first] = q.second; }
  D res(const Geo& g, const D& x, const D& z) const { D r = R(g, x, z), q; for (int i : fr) q.push_back(r[i]); return q; }
  bool factor(const Geo& g, const D& z) { int n = fr.size(); M K(n, n); D r0 = res(g, u, z); for (int j = 0; j < n; ++j) { D e(u.size(), 0.0); e[fr[j]] = 1; D k; if (nl) k = fdir([&](const D& y) { return res(g, y, z); }, u, e, 1e-2); else { D y(u); y[fr[j]] += 1; k = res(g, y, z); for (int i = 0; i < n; ++i) k[i] -= r0[i]; } for (int i = 0; i < n; ++i) K(i, j) = k[i]; } scale = std::max(amax(K.a), 1e-300); return inverse(K, Ki); }
  static bool step(D& x, const std::vector<int>& fr, const M& Ki, const D& r) { double m = 0; D q = mulv(Ki, r); for (size_t i = 0; i < fr.size(); ++i) { x[fr[i]] -= q[i]; m = std::max(m, std::fabs(q[i])); } return m <= 1e-13 * std::max(1.0, amax(x)); }
  // solves at (g, z), remembering the factorisation; Newton starts from rest and imposes the prescribed values with the first increment
  bool solve(const Geo& g, const D& z) { if (nl) { D b(u.size(), 0.0), o(b); for (auto& q : bc) b[q.first] = q.second; u = o; if (!factor(g, z)) return false; D r = res(g, o, z), t = fdir([&](const D& y) { return res(g, y, z); }, o, b, 1e-2); for (size_t i = 0; i < r.size(); ++i) r[i] += t[i]; step(u, fr, Ki, r); for (auto& q : bc) u[q.first] = q.second; }
    for (int k = 0; k < (nl ? 9 : 25); ++k) { if (nl || k == 0) if (!factor(g, z)) return false; bool ok = step(u, fr, Ki, res(g, u, z)); double m = amax(u); if (!(m < 50)) return false; if (ok) { if (nl) return factor(g, z); return true; } } return false; }
  // solution at a point near the one solved
  D near(const Geo& g, const D& z) const { D x(u); for (int k = 0; k < 60; ++k) if (step(x, fr, Ki, res(g, x, z))) return x; return D(u.size(), NAN); } };
// internal forces minus loads of a model
inline Res residual(const Model& m, const Pen& pn, const std::vector<Load>& ls, const std::vector<Body>& bs, int col) { return [=](const Geo& h, const D& u, const D& z) { int nd = m.nd; D R(h.nn() * nd, 0.0); for (int e = 0; e < h.ne(); ++e) { auto q = cell(h, e); Fld f = m.f(h, e, q, u); double w = pn(nodeAvg(q, z)) * q.vol;
    if (m.name == "thermal") addFlux(h, q, f["flux"], R, 1, 0, -w); else { D t = f["stress"]; if (col >= 0) for (size_t i = 0; i < t.size(); ++i) t[i] -= m.el[h.blockOf[e] % m.nb].C(i, col); addStress(h, q, t, R, nd, 0, w); if (m.name == "thermomechanics") addFlux(h, q, f["flux"], R, nd, d, w); if (m.name == "electromechanics") addFlux(h, q, f["edisp"], R, nd, d, w); } } addLoads(h, ls, bs, z, R, nd, nullptr); return R; }; }
inline void genAllLoads(Rng& r, const Geo& g, PL& p, const Model& m, std::vector<Load>& ls, std::vector<Body>& bs, bool fixed = false) { auto N = [&](const char* l, int off, int n, double s, bool pr) { genLoads(r, g, p, l, off, n, s, pr, ls); };
  if (m.name == "mechanics") N("Natural Boundary Conditions", 0, d, -1, !fixed); else if (m.name == "thermal") N("Natural Boundary Conditions", 0, 1, 1, false); else { N("Mechanical Natural Boundary Conditions", 0, d, -1, !fixed); N(m.name == "thermomechanics" ? "Thermal Natural Boundary Conditions" : "Electrical Natural Boundary Conditions", d, 1, -1, false); } if (!fixed) genBody(r, p, m.nd, bs); }
inline std::vector<int> nodesOf(const Geo& g, const std::string& set) { std::vector<int> v; auto s = g.sets[Omega_h::NODE_SET].at(set); for (int i = 0; i < s.size(); ++i) v.push_back(s[i]); return v; }
// essential conditions: every dof on one side, others at random; nodes shared by two sets get one value
inline void genBcs(Rng& r, const Geo& g, PL& p, int nd, std::map<int, double>& bc, bool zero = false, std::map<int, double>* rate = nullptr, const char* list = "Essential Boundary Conditions") { PL& l = p.sublist(list); std::string s0 = r.pick(g.sides); int q = 0; auto put = [&](const std::string& side, int k, double v) { std::string set = "ns_" + side; PL& b = l.sublist(str(q++, " ", set, " ", k)); b.set("Sides", set); if (k > 0 || r.coin()) b.set("Index", k); double t = std::round(4 * v) / 4; int how = v == 0 ? r.in(0, 2) : r.in(1, 3); if (how == 0) b.set("Type", std::string("Zero Value")); else if (how == 1) { b.set("Type", std::string("Fixed Value")); b.set("Value", v); } else { v = t; b.set("Type", std::string(how == 2 ? "Fixed Value" : "Time Dependent")); b.set("Function", str(t < 0 ? "0-" : "", std::fabs(t), " + 2*t")); } for (int n : nodesOf(g, set)) { bc[n * nd + k] = v; if (rate) (*rate)[n * nd + k] = how > 1 ? 2 : 0; } return v; };
  for (int k = 0; k < nd; ++k) { double v = put(s0, k, zero || r.coin() ? 0.0 : r.uni(-0.4, 0.4)); if (r.coin(0.4)) { std::string s1 = r.pick(g.sides); auto a = nodesOf(g, "ns_" + s0), b = nodesOf(g, "ns_" + s1); bool share = false; for (int x : a) for (int y : b) share = share || x == y; if (share && !(rate && rate->at(a[0] * nd + k) != 0)) { PL& w = l.sublist(str(q++, " again")); w.set("Sides", "ns_" + s1); w.set("Index", k); w.set("Type", std::string("Fixed Value")); w.set("Value", v); for (int n : b) { bc[n * nd + k] = v; if (rate) (*rate)[n * nd + k] = 0; } } else if (!share) put(s1, k, zero ? 0.0 : r.uni(-0.4, 0.4)); } } }
}
