// Random simplices with exactly known shape-function gradients and volume, and the Voigt numbering of the documentation.
#pragma once
#include "kk.hpp"
namespace gm {
using kk::D; using vh::Rng;
struct Cell { int d; std::vector<D> x; std::vector<D> g; double vol; D c; };          // nodes, gradients, volume, centroid
inline double det(int d, const std::vector<D>& e) { if (d == 1) return e[0][0]; if (d == 2) return e[0][0] * e[1][1] - e[0][1] * e[1][0];
  return e[0][0] * (e[1][1] * e[2][2] - e[1][2] * e[2][1]) - e[0][1] * (e[1][0] * e[2][2] - e[1][2] * e[2][0]) + e[0][2] * (e[1][0] * e[2][1] - e[1][1] * e[2][0]); }
inline Cell cell(Rng& g, int d, double size = 1, bool positive = true) { Cell k; k.d = d;
  for (;;) { k.x.clear(); for (int a = 0; a <= d; ++a) { D p(d); for (auto& v : p) v = g.uni(-1, 1) * size; k.x.push_back(p); }
    std::vector<D> e; for (int a = 1; a <= d; ++a) { D p(d); for (int j = 0; j < d; ++j) p[j] = k.x[a][j] - k.x[0][j]; e.push_back(p); }
    double J = det(d, e), ref = std::pow(size, d); if (std::fabs(J) < 0.15 * ref) continue; if (positive && J < 0) { std::swap(k.x[0], k.x[1]); e.clear(); for (int a = 1; a <= d; ++a) { D p(d); for (int j = 0; j < d; ++j) p[j] = k.x[a][j] - k.x[0][j]; e.push_back(p); } J = -J; }
    // rows of e are edges; N_a gradient solves e * g_a = unit_a
    kk::M A(d, d); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) A(i, j) = e[i][j] / size; k.g.assign(d + 1, D(d, 0.0));
    for (int a = 1; a <= d; ++a) { D b(d, 0.0), s; b[a - 1] = 1; kk::solve(A, b, s); for (int j = 0; j < d; ++j) { k.g[a][j] = s[j] / size; k.g[0][j] -= s[j] / size; } }
    k.vol = std::fabs(J) / (d == 1 ? 1 : d == 2 ? 2 : 6); k.c.assign(d, 0.0); for (auto& p : k.x) for (int j = 0; j < d; ++j) k.c[j] += p[j] / (d + 1); return k; } }
constexpr int nv(int d) { return d * (d + 1) / 2; }
// Voigt pairs: normal terms, then yz, xz, xy
inline std::vector<std::pair<int, int>> voigt(int d) { if (d == 1) return {{0, 0}}; if (d == 2) return {{0, 0}, {1, 1}, {0, 1}}; return {{0, 0}, {1, 1}, {2, 2}, {1, 2}, {0, 2}, {0, 1}}; }
inline D eng(int d, const std::vector<D>& A) { D v; for (auto p : voigt(d)) v.push_back(p.first == p.second ? A[p.first][p.first] : A[p.first][p.second] + A[p.second][p.first]); return v; }
inline std::vector<D> tens(int d, const D& v) { std::vector<D> t(d, D(d, 0.0)); int k = 0; for (auto p : voigt(d)) { t[p.first][p.second] = t[p.second][p.first] = v[k++]; } return t; }
struct Mesh { int d, n; std::vector<Cell> c; kk::V3 G; kk::V1 vol; };
inline Mesh mesh(Rng& g, int d, int n) { Mesh m; m.d = d; m.n = n; m.G = kk::V3("gradient", n, d + 1, d); m.vol = kk::V1("volume", n); double size = g.coin(0.3) ? std::pow(10.0, g.uni(-3, 3)) : 1.0;
  for (int i = 0; i < n; ++i) { m.c.push_back(cell(g, d, size)); for (int a = 0; a <= d; ++a) for (int j = 0; j < d; ++j) m.G(i, a, j) = m.c[i].g[a][j]; m.vol(i) = m.c[i].vol; } return m; }
inline double gmax(const Cell& c) { double m = 0; for (auto& r : c.g) for (double v : r) m = std::max(m, std::fabs(v)); return m; }
// affine field of `nf` components: f = A x + b
struct Affine { std::vector<D> A; D b; };
inline Affine affine(Rng& g, int nf, int d) { Affine f; f.A.resize(nf); for (auto& r : f.A) r = kk::rnd(g, d); f.b = kk::rnd(g, nf); return f; }
inline double at(const Affine& f, int i, const D& x) { double s = f.b[i]; for (size_t j = 0; j < x.size(); ++j) s += f.A[i][j] * x[j]; return s; }
inline D row(const kk::V2& v, int i) { D r; for (size_t j = 0; j < v.extent(1); ++j) r.push_back(v(i, j)); return r; }
inline D row(const kk::V3& v, int i, int q) { D r; for (size_t j = 0; j < v.extent(2); ++j) r.push_back(v(i, q, j)); return r; }
}
