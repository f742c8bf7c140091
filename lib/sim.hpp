// Randomised meshes with named sets, and small helpers to drive /repo's mesh-based classes on the Omega_h stand-in.
#pragma once
#include "kk.hpp"
#include <Omega_h_mesh.hpp>
#include <Omega_h_assoc.hpp>
#include <Teuchos_ParameterList.hpp>
#ifndef VDIM
#define VDIM 2
#endif
namespace sim {
using namespace kk;
using PL = Teuchos::ParameterList;

struct Geo {
  int dim = 0; D xyz; std::vector<int> ev; std::vector<std::vector<int>> logical; int n[3]; double L[3];
  Omega_h::Mesh mesh; Omega_h::MeshSets sets; std::vector<int> blockOf; int nblocks = 1; std::vector<std::string> sides;
  std::string desc;
  int nn() const { return (int)xyz.size() / dim; }
  int ne() const { return (int)ev.size() / (dim + 1); }
  // the same topology, numbering and sets on other coordinates
  Geo moved(const D& x) const { Geo g(*this); g.xyz = x; g.mesh = Omega_h::Mesh::make(dim, x, ev); return g; }
};
inline void makeSets(Geo& g) {
  g.sets = Omega_h::MeshSets();
  std::vector<int> all; for (int e = 0; e < g.ne(); ++e) all.push_back(e);
  g.sets[Omega_h::ELEM_SET]["body"] = Omega_h::Mesh::to_los(all);
  for (int b = 0; b < g.nblocks; ++b) { std::vector<int> l; for (int e = 0; e < g.ne(); ++e) if (g.blockOf[e] == b) l.push_back(e); g.sets[Omega_h::ELEM_SET][str("blk", b)] = Omega_h::Mesh::to_los(l); }
  const char* ax[3] = {"x", "y", "z"}; auto fv = g.mesh.ask_verts_of(g.dim - 1); int nf = fv.size() / g.dim; g.sides.clear();
  std::vector<int> an; for (int v = 0; v < g.nn(); ++v) an.push_back(v); g.sets[Omega_h::NODE_SET]["all"] = Omega_h::Mesh::to_los(an);
  for (int d = 0; d < g.dim; ++d) for (int s = 0; s < 2; ++s) {
    int want = s ? g.n[d] : 0; std::vector<int> f, nd;
    for (int i = 0; i < nf; ++i) { bool on = true; for (int k = 0; k < g.dim; ++k) on = on && g.logical[fv[i * g.dim + k]][d] == want; if (on) f.push_back(i); }
    for (int v = 0; v < g.nn(); ++v) if (g.logical[v][d] == want) nd.push_back(v);
    std::string nm = str(ax[d], s); g.sets[Omega_h::SIDE_SET]["ss_" + nm] = Omega_h::Mesh::to_los(f); g.sets[Omega_h::NODE_SET]["ns_" + nm] = Omega_h::Mesh::to_los(nd); g.sides.push_back(nm); }
}
// a box of simplices with random extents, jittered nodes, random node/cell/local numbering and up to `blocks` element blocks
inline Geo box(Rng& r, int dim, int nmax, double jit = -1, bool renumber = true, int blocks = 1) {
  if (jit < 0) jit = dim == 2 ? 0.12 : 0.08;
  Geo g; g.dim = dim; for (int d = 0; d < 3; ++d) { g.n[d] = d < dim ? r.in(1, nmax) : 0; g.L[d] = r.uni(0.5, 2.0); }
  while (dim > 1 && g.n[0] * g.n[1] * std::max(1, g.n[2]) < 2) g.n[r.in(0, dim - 1)] = 2;
  auto m = Omega_h::build_box(nullptr, OMEGA_H_SIMPLEX, g.L[0], g.L[1], g.L[2], g.n[0], g.n[1], g.n[2]);
  int nn = m.nverts(), ne = m.nelems(), k = dim + 1; D x(nn * dim); std::vector<std::vector<int>> lg(nn);
  for (int v = 0; v < nn; ++v) for (int d = 0; d < dim; ++d) { double c = m.coords()[v * dim + d]; lg[v].push_back((int)std::lround(c / g.L[d] * g.n[d])); x[v * dim + d] = c + r.uni(-jit, jit) * g.L[d] / g.n[d]; }
  std::vector<int> np(nn), ep(ne); for (int i = 0; i < nn; ++i) np[i] = i; for (int i = 0; i < ne; ++i) ep[i] = i;
  if (renumber) { for (int i = nn - 1; i > 0; --i) std::swap(np[i], np[r.in(0, i)]); for (int i = ne - 1; i > 0; --i) std::swap(ep[i], ep[r.in(0, i)]); }
  g.xyz.resize(nn * dim); g.logical.resize(nn); for (int v = 0; v < nn; ++v) { g.logical[np[v]] = lg[v]; for (int d = 0; d < dim; ++d) g.xyz[np[v] * dim + d] = x[v * dim + d]; }
  g.ev.resize(ne * k);
  for (int e = 0; e < ne; ++e) { std::vector<int> c(k); for (int i = 0; i < k; ++i) c[i] = np[m.ask_elem_verts()[e * k + i]];
    if (renumber) { if (dim == 2) { int s = r.in(0, 2); std::rotate(c.begin(), c.begin() + s, c.end()); } if (dim == 3) for (int t = r.in(0, 5); t > 0; --t) { int a = r.in(0, 3); int o[3], q = 0; for (int i = 0; i < 4; ++i) if (i != a) o[q++] = i; std::swap(c[o[0]], c[o[1]]); std::swap(c[o[1]], c[o[2]]); } }
    for (int i = 0; i < k; ++i) g.ev[ep[e] * k + i] = c[i]; }
  g.nblocks = blocks; g.blockOf.assign(ne, 0); if (blocks > 1) { for (auto& b : g.blockOf) b = r.in(0, blocks - 1); for (int b = 0; b < blocks; ++b) if (b < ne) g.blockOf[b] = b; }
  g.mesh = Omega_h::Mesh::make(dim, g.xyz, g.ev); makeSets(g);
  g.desc = str(dim, "D box ", g.n[0], "x", g.n[1], "x", g.n[2], " L ", g.L[0], ",", g.L[1], ",", g.L[2], " blocks ", blocks, " n0 ", np[0], " e0 ", ep[0], " x0 ", g.xyz[0]); return g; }

// cell geometry computed here, independently of /repo
struct Cell { double vol; std::vector<D> grad; std::vector<int> v; }; // grad[node][dim]
inline Cell cell(const Geo& g, int e) {
  int d = g.dim, k = d + 1; Cell c; c.v.assign(g.ev.begin() + e * k, g.ev.begin() + (e + 1) * k);
  M A(k, k); for (int i = 0; i < k; ++i) { A(i, 0) = 1; for (int j = 0; j < d; ++j) A(i, j + 1) = g.xyz[c.v[i] * d + j]; }
  c.grad.assign(k, D(d)); for (int i = 0; i < k; ++i) { D b(k, 0.0), s; b[i] = 1; solve(A, b, s); for (int j = 0; j < d; ++j) c.grad[i][j] = s[j + 1]; }
  // volume from the determinant of the edge matrix
  double det; if (d == 1) det = A(1, 1) - A(0, 1); else if (d == 2) det = (A(1, 1) - A(0, 1)) * (A(2, 2) - A(0, 2)) - (A(2, 1) - A(0, 1)) * (A(1, 2) - A(0, 2));
  else { double a[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) a[i][j] = A(i + 1, j + 1) - A(0, j + 1);
    det = a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]); }
  c.vol = det / (d == 1 ? 1 : d == 2 ? 2 : 6); return c; }
// nodal vector with block size nd at a cell's nodes
inline double nodeAvg(const Cell& c, const D& z) { double s = 0; for (int v : c.v) s += z[v]; return s / c.v.size(); }
inline int nvoigt(int d) { return d == 1 ? 1 : d == 2 ? 3 : 6; }
inline std::pair<int, int> vij(int d, int i) { if (d == 1) return {0, 0}; if (d == 2) return i < 2 ? std::make_pair(i, i) : std::make_pair(0, 1); static const int t[6][2] = {{0, 0}, {1, 1}, {2, 2}, {1, 2}, {0, 2}, {0, 1}}; return {t[i][0], t[i][1]}; }
// engineering Voigt strain of the displacement dofs off..off+d-1 of a nodal vector with nd dofs per node
inline D strain(const Geo& g, const Cell& c, const D& u, int nd, int off = 0) { int d = g.dim; M G(d, d); for (size_t a = 0; a < c.v.size(); ++a) for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) G(i, j) += u[c.v[a] * nd + off + i] * c.grad[a][j];
  D e(nvoigt(d)); for (int k = 0; k < nvoigt(d); ++k) { auto p = vij(d, k); e[k] = p.first == p.second ? G(p.first, p.first) : G(p.first, p.second) + G(p.second, p.first); } return e; }
inline D grad(const Geo& g, const Cell& c, const D& u, int nd, int off) { D r(g.dim, 0.0); for (size_t a = 0; a < c.v.size(); ++a) for (int j = 0; j < g.dim; ++j) r[j] += u[c.v[a] * nd + off] * c.grad[a][j]; return r; }
inline void addStress(const Geo& g, const Cell& c, const D& s, D& R, int nd, int off, double w) { int d = g.dim; for (size_t a = 0; a < c.v.size(); ++a) for (int k = 0; k < nvoigt(d); ++k) { auto p = vij(d, k); R[c.v[a] * nd + off + p.first] += w * s[k] * c.grad[a][p.second]; if (p.first != p.second) R[c.v[a] * nd + off + p.second] += w * s[k] * c.grad[a][p.first]; } }
inline void addFlux(const Geo& g, const Cell& c, const D& q, D& R, int nd, int off, double w) { for (size_t a = 0; a < c.v.size(); ++a) for (int j = 0; j < g.dim; ++j) R[c.v[a] * nd + off] += w * q[j] * c.grad[a][j]; }
// faces of a side set: vertices, and the outward area vector
struct Face { std::vector<int> v; D n; double area; };
inline std::vector<Face> faces(const Geo& g, const std::string& ss) { std::vector<Face> r; auto l = g.sets[Omega_h::SIDE_SET].at(ss); auto fv = const_cast<Geo&>(g).mesh.ask_verts_of(g.dim - 1); int d = g.dim;
  for (int i = 0; i < l.size(); ++i) { Face f; for (int k = 0; k < d; ++k) f.v.push_back(fv[l[i] * d + k]); D o(d, 0.0); // centroid of the cell behind
    for (int e = 0; e < g.ne(); ++e) { int hit = 0; for (int a = 0; a <= d; ++a) for (int v : f.v) hit += g.ev[e * (d + 1) + a] == v; if (hit == d) { for (int a = 0; a <= d; ++a) for (int j = 0; j < d; ++j) o[j] += g.xyz[g.ev[e * (d + 1) + a] * d + j] / (d + 1); break; } }
    auto X = [&](int a, int j) { return g.xyz[f.v[a] * d + j]; };
    if (d == 2) f.n = {X(1, 1) - X(0, 1), X(0, 0) - X(1, 0)};
    else { double a[3], b[3]; for (int j = 0; j < 3; ++j) { a[j] = X(1, j) - X(0, j); b[j] = X(2, j) - X(0, j); } f.n = {0.5 * (a[1] * b[2] - a[2] * b[1]), 0.5 * (a[2] * b[0] - a[0] * b[2]), 0.5 * (a[0] * b[1] - a[1] * b[0])}; }
    double s = 0; f.area = 0; for (int j = 0; j < d; ++j) { s += f.n[j] * (X(0, j) - o[j]); f.area += f.n[j] * f.n[j]; } f.area = std::sqrt(f.area); if (s < 0) for (auto& q : f.n) q = -q; r.push_back(f); } return r; }

// penalty models, by formula
struct Pen { std::string type; double p = 1, mn = 0, reg = 1;
  double operator()(double z) const { if (type == "SIMP") return mn + (1 - mn) * std::pow(z, p); if (type == "RAMP") return mn + (1 - mn) * z / (1 + p * (1 - z)); if (type == "NoPenalty") return 1.0;
    if (z <= -reg) return mn; if (z >= reg) return 1; return mn + (1 - mn) * std::pow(0.5 * (1 + std::sin(M_PI * z / (2 * reg))), p); }
  PL list() const { PL l; l.set("Type", type); if (type != "NoPenalty") { l.set("Exponent", p); l.set("Minimum Value", mn); if (type == "Heaviside") l.set("Regularization Length", reg); } return l; } };
inline Pen pen(Rng& r, bool none = false) { Pen p; int k = r.in(0, none ? 3 : 2); p.type = k == 0 ? "SIMP" : k == 1 ? "RAMP" : k == 2 ? "Heaviside" : "NoPenalty"; p.p = r.coin() ? 3.0 : r.uni(1, 4); p.mn = r.coin() ? 1e-3 : r.uni(0, 0.2); p.reg = r.uni(1.1, 2); return p; }
inline PL spatial(const Geo& g, const std::vector<std::string>& mats) { PL l; if (g.nblocks == 1) { auto& d = l.sublist("Domains").sublist("Design Volume"); d.set("Element Block", "body"); d.set("Material Model", mats[0]); }
  else for (int b = 0; b < g.nblocks; ++b) { auto& d = l.sublist("Domains").sublist(str("Domain ", b)); d.set("Element Block", str("blk", b)); d.set("Material Model", mats[b % mats.size()]); } return l; }
inline Teuchos::Array<double> arr(const D& v) { Teuchos::Array<double> a; for (double x : v) a.push_back(x); return a; }
inline M iso(int d, double E, double v) { int n = nvoigt(d); M C(n, n); double lam = E * v / ((1 + v) * (1 - 2 * v)), mu = E / (2 * (1 + v)); for (int i = 0; i < d; ++i) { for (int j = 0; j < d; ++j) C(i, j) = lam; C(i, i) += 2 * mu; } for (int i = d; i < n; ++i) C(i, i) = mu; return C; }

// derivative of f along dir at x, fourth-order central differences
template <class F> D fdir(F f, const D& x, const D& dir, double h) { auto at = [&](double s) { D y(x); for (size_t i = 0; i < y.size(); ++i) y[i] += s * dir[i]; return f(y); };
  D a = at(h), b = at(-h), c = at(2 * h), d = at(-2 * h); for (size_t i = 0; i < a.size(); ++i) a[i] = (8 * (a[i] - b[i]) - (c[i] - d[i])) / (12 * h); return a; }
// derivative of a scalar function with an estimate of its own error: the pair of consecutive step sizes that agree best
template <class F> std::pair<double, double> fbest(F f, const D& x, const D& dir, double h) { auto g = [&](const D& y) { return D{f(y)}; }; double p = fdir(g, x, dir, h)[0], best = p, err = 1e300; for (int i = 0; i < 5 && !(err <= 1e-8 * std::fabs(best)); ++i) { h /= 4; double q = fdir(g, x, dir, h)[0]; if (std::fabs(q - p) < err) { err = std::fabs(q - p); best = q; } p = q; } return {best, err}; }
inline double dot(const D& a, const D& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
inline bool near_(Ctx& c, const D& got, const D& want, const std::string& key, double rtol, double scale = 0, const std::string& what = "") { // relative to the largest entry
  if (!c.check(got.size() == want.size(), key + "-size", str(got.size(), " vs ", want.size()))) return false;
  double s = std::max(scale, std::max(amax(got), amax(want))); bool ok = true; size_t at = 0; for (size_t i = 0; i < got.size(); ++i) if (!(std::fabs(got[i] - want[i]) <= rtol * s + 1e-280)) { if (ok) at = i; ok = false; }
  return c.check(ok, key, ok ? "" : str("entry ", at, " observed ", got[at], " expected ", want[at], " scale ", s, " ", what)); }

inline M inv(const M& A) { M R(A.r, A.r); for (int j = 0; j < A.r; ++j) { D b(A.r, 0.0), x; b[j] = 1; solve(A, b, x); for (int i = 0; i < A.r; ++i) R(i, j) = x[i]; } return R; }
// a random linear elastic material of any family: parameter list, stiffness, reference strain, density, pressure scaling
struct Mat4 { PL list; M C; D e0; double rho = 1; std::string family; double E = 0, nu = 0; };
inline Mat4 elastic(Rng& r, int d, int fam = -1, bool strain0 = true) {
  Mat4 m; if (fam < 0) fam = r.in(0, 3); int n = nvoigt(d); m.e0.assign(n, 0.0); const char* nm[4] = {"Isotropic Linear Elastic", "Cubic Linear Elastic", "Orthotropic Linear Elastic", "Custom Linear Elastic"}; m.family = nm[fam]; PL& p = m.list.sublist(m.family);
  auto pos = [&] { return r.uni(0.5, 4.0); }; auto nu = [&] { return r.uni(-0.2, 0.4); };
  if (fam == 0) { m.E = pos(); m.nu = nu(); p.set("Youngs Modulus", m.E); p.set("Poissons Ratio", m.nu); m.C = iso(d, m.E, m.nu); }
  if (fam == 1) { double c11 = r.uni(3, 5), c12 = r.uni(-1, 1.4), c44 = pos(); p.set("C11", c11); p.set("C12", c12); p.set("C44", c44); m.C = M(n, n); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) m.C(i, j) = i == j ? c11 : c12; for (int i = d; i < n; ++i) m.C(i, i) = c44; }
  if (fam == 2) { const char* ax[3] = {"X", "Y", "Z"}; D E(3), nuv(3), G(3); for (int i = 0; i < 3; ++i) { E[i] = r.uni(1, 2); nuv[i] = r.uni(-0.2, 0.35); G[i] = pos(); } // nu XY, XZ, YZ
    static const int pr[3][2] = {{0, 1}, {0, 2}, {1, 2}}; M S(n, n); for (int i = 0; i < d; ++i) { S(i, i) = 1 / E[i]; p.set(str("Youngs Modulus ", ax[i]), E[i]); }
    for (int k = 0; k < 3; ++k) { int i = pr[k][0], j = pr[k][1]; if (j >= d) continue; p.set(str("Poissons Ratio ", ax[i], ax[j]), nuv[k]); p.set(str("Shear Modulus ", ax[i], ax[j]), G[k]); S(i, j) = S(j, i) = -nuv[k] / E[i]; for (int q = d; q < n; ++q) if (vij(d, q) == std::make_pair(i, j)) S(q, q) = 1 / G[k]; } m.C = inv(S); }
  if (fam == 3) { m.E = pos(); m.nu = nu(); p.set("E", m.E); p.set("v", m.nu); p.set("Equation", std::string("E/((1.0+v)*(1.0-2.0*v))")); m.C = iso(d, m.E, m.nu); }
  if (strain0 && r.coin()) for (int k = 0; k < n; ++k) if (r.coin(0.7)) { auto q = vij(d, k); m.e0[k] = r.uni(-0.5, 0.5); p.set(str("e", q.first + 1, q.second + 1), m.e0[k]); }
  if (r.coin()) { m.rho = pos(); p.set("Mass Density", m.rho); }
  return m; }
inline D rv(const V1& v) { return get(v); }
}
// group names carry the dimension of the build
#if VDIM == 2
#define SIM_GROUP(NAME) VH_GROUP(NAME##_2d)
#else
#define SIM_GROUP(NAME) VH_GROUP(NAME##_3d)
#endif
