// Random trees of optimisation criteria: the parameter lists that describe them and an independent evaluation of their value.
#pragma once
#include "sim.hpp"
namespace crit {
using namespace sim;
// value at (mesh, states of all steps concatenated, densities)
using Ref = std::function<double(const Geo&, const D&, const D&)>;
struct Crit { std::string name, kind; Ref f; };
struct Gen { Rng& r; PL& top; int count = 0; std::function<Crit(Gen&)> leaf; Geo* g = nullptr; D u, z; std::vector<Crit> den; // denominators of divisions
  bool regular(const D& u2, const D& z2) { for (auto& q : den) if (!(std::fabs(q.f(*g, u2, z2)) > 1e-3)) return false; return true; }
  PL& list(const std::string& n, const char* type) { PL& l = top.sublist("Criteria").sublist(n); l.set("Type", std::string(type)); return l; }
  std::string fresh(const char* k) { return str(k, " ", count++); }
  double at(const Crit& c) { return c.f(*g, u, z); }
  Crit tree(int depth) {
    int k = depth <= 0 ? 0 : r.in(0, 3); if (k == 0) return leaf(*this);
    if (k == 2) { Crit a = tree(depth - 1), b = tree(depth - 1); double v = at(b); if (!(std::fabs(v) > 1e-2)) return b; Crit c; c.kind = "division"; c.name = fresh("ratio"); PL& l = list(c.name, "Division"); l.set("Numerator", a.name); l.set("Denominator", b.name); den.push_back(b); c.f = [=](const Geo& g, const D& u, const D& z) { return a.f(g, u, z) / b.f(g, u, z); }; return c; }
    int n = r.in(1, 3); std::vector<Crit> ch; Teuchos::Array<std::string> nm; D w, gold; for (int i = 0; i < n; ++i) { ch.push_back(tree(depth - 1)); nm.push_back(ch[i].name); w.push_back(r.uni(-2, 2)); gold.push_back(r.coin(0.3) ? r.uni(-0.09, 0.09) : r.sgn() * r.uni(0.2, 3)); }
    Crit c; if (k == 1) { c.kind = "sum"; c.name = fresh("sum"); PL& l = list(c.name, "Weighted Sum"); l.set("Functions", nm); l.set("Weights", arr(w)); c.f = [=](const Geo& g, const D& u, const D& z) { double s = 0; for (int i = 0; i < n; ++i) s += w[i] * ch[i].f(g, u, z); return s; }; return c; }
    c.kind = "leastsquares"; c.name = fresh("lsq"); PL& l = list(c.name, "Least Squares"); l.set("Functions", nm); l.set("Weights", arr(w)); l.set("Gold Values", arr(gold));
    c.f = [=](const Geo& g, const D& u, const D& z) { double s = 0; for (int i = 0; i < n; ++i) { double e = (ch[i].f(g, u, z) - gold[i]) / (std::fabs(gold[i]) > 0.1 ? std::fabs(gold[i]) : 1.0); s += w[i] * e * e; } return s; }; return c; } };
// mass moments by the one-point rule at the centroid: mass, first and second moments
struct Moments { double m = 0; double f[3] = {0, 0, 0}; M s = M(3, 3); };
inline Moments moments(const Geo& g, const D& z, const D& rho) { Moments q; for (int e = 0; e < g.ne(); ++e) { auto c = cell(g, e); double m = c.vol * nodeAvg(c, z) * rho[g.blockOf[e]]; double x[3] = {0, 0, 0}; for (int v : c.v) for (int j = 0; j < g.dim; ++j) x[j] += g.xyz[v * g.dim + j] / (g.dim + 1); q.m += m; for (int i = 0; i < 3; ++i) { q.f[i] += m * x[i]; for (int j = 0; j < 3; ++j) q.s(i, j) += m * x[i] * x[j]; } } return q; }
inline M inertia(const Moments& q) { M I(3, 3); double t = q.s(0, 0) + q.s(1, 1) + q.s(2, 2); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) I(i, j) = (i == j ? t : 0) - q.s(i, j); return I; }
inline double extent(const Geo& g, int j) { double a = 1e300, b = -1e300; for (int v = 0; v < g.nn(); ++v) { a = std::min(a, g.xyz[v * g.dim + j]); b = std::max(b, g.xyz[v * g.dim + j]); } return b - a; }
// a Mass Properties criterion (3D): any subset of the ten properties in any order, or all ten (principal axes about the target centre)
inline Crit massProps(Gen& G, const D& rho) { auto& r = G.r; static const char* P[10] = {"Mass", "CGx", "CGy", "CGz", "Ixx", "Iyy", "Izz", "Ixy", "Ixz", "Iyz"}; static const int ij[10][2] = {{0, 0}, {0, 0}, {1, 1}, {2, 2}, {0, 0}, {1, 1}, {2, 2}, {0, 1}, {0, 2}, {1, 2}};
  std::vector<int> o; for (int i = 0; i < 10; ++i) o.push_back(i); for (int i = 9; i > 0; --i) std::swap(o[i], o[r.in(0, i)]); int n = r.coin() ? 10 : r.in(1, 9); o.resize(n);
  D z2 = uni(r, G.g->nn(), 0.2, 1.0); Moments q = moments(*G.g, z2, rho); M I = inertia(q); D gold(10), w(10); for (int k = 0; k < 10; ++k) { gold[k] = (k == 0 ? q.m : k < 4 ? q.f[k - 1] / q.m : I(ij[k][0], ij[k][1])); w[k] = r.uni(0.2, 2); }
  Crit c; c.name = G.fresh("mass"); c.kind = n == 10 ? "massproperties" : "massitems"; PL& l = G.list(c.name, "Mass Properties"); Teuchos::Array<std::string> nm; D lw, lg; for (int k : o) { nm.push_back(P[k]); lw.push_back(w[k]); lg.push_back(gold[k]); } l.set("Properties", nm); l.set("Weights", arr(lw)); l.set("Gold Values", arr(lg));
  double ext[3]; for (int j = 0; j < 3; ++j) ext[j] = extent(*G.g, j); // the normalisation is fixed when the criterion is built
  auto nrm = [](double g) { return std::fabs(g) > 0.1 ? std::fabs(g) : 1.0; }; auto nrm2 = [](double g) { return std::max(0.1, std::fabs(g)); };
  if (n < 10) { c.f = [=](const Geo& g, const D&, const D& z) { Moments q = moments(g, z, rho); M I = inertia(q); double s = 0; for (int k : o) { double v = k == 0 ? q.m : k < 4 ? q.f[k - 1] / q.m : I(ij[k][0], ij[k][1]); double e = (v - gold[k]) / (k > 0 && k < 4 ? nrm2(ext[k - 1]) : nrm(gold[k])); s += w[k] * e * e; } return s; }; return c; }
  M A(3, 3); double cg2 = 0; for (int j = 0; j < 3; ++j) cg2 += gold[1 + j] * gold[1 + j]; M Pm(3, 3); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { Pm(i, j) = (i == j ? cg2 : 0) - gold[1 + i] * gold[1 + j]; A(i, j) = I(i, j) - gold[0] * Pm(i, j); }
  auto dec = Omega_h::decompose_eigen_jacobi<3>(Omega_h::tensor_3(A(0, 0), A(0, 1), A(0, 2), A(1, 0), A(1, 1), A(1, 2), A(2, 0), A(2, 1), A(2, 2))); M Q(3, 3); double pv[3]; for (int i = 0; i < 3; ++i) { pv[i] = dec.l(i); for (int j = 0; j < 3; ++j) Q(i, j) = dec.q(i, j); }
  double mn = std::min(pv[0], std::min(pv[1], pv[2]));
  c.f = [=](const Geo& g, const D&, const D& z) { Moments q = moments(g, z, rho); M I = inertia(q); for (int i = 0; i < 9; ++i) I.a[i] -= q.m * Pm.a[i]; M T = mul(tr(Q), mul(I, Q)); double s = 0; for (int k = 0; k < 10; ++k) { double e; if (k == 0) e = (q.m - gold[0]) / nrm(gold[0]); else if (k < 4) e = (q.f[k - 1] / q.m - gold[k]) / nrm2(ext[k - 1]); else if (k < 7) e = (T(k - 4, k - 4) - pv[k - 4]) / nrm(pv[k - 4]); else e = T(ij[k][0], ij[k][1]) / nrm2(mn); s += w[k] * e * e; } return s; }; return c; }
}
