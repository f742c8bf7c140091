// Helpers shared by the harnesses: filling Kokkos views, dense reference matrices, sparse block matrices.
#pragma once
#include "vh.hpp"
#include <Kokkos_Core.hpp>
#include <Teuchos_RCP.hpp>
#include "PlatoStaticsTypes.hpp"
namespace kk {
using vh::Rng; using vh::Ctx; using vh::str;
using V1 = Plato::ScalarVector; using V2 = Plato::ScalarMultiVector; using V3 = Plato::ScalarArray3D; using OV = Plato::LocalOrdinalVector;
using D = std::vector<double>;
inline V1 mk1(const D& d, const std::string& n = "v") { V1 v(n, d.size()); for (size_t i = 0; i < d.size(); ++i) v(i) = d[i]; return v; }
inline OV mko(const std::vector<int>& d) { OV v("o", d.size()); for (size_t i = 0; i < d.size(); ++i) v(i) = d[i]; return v; }
inline D rnd(Rng& g, size_t n) { D d(n); for (auto& x : d) x = g.real(); return d; }
inline D uni(Rng& g, size_t n, double a = -1, double b = 1) { D d(n); for (auto& x : d) x = g.uni(a, b); return d; }
inline V2 mk2(const D& d, size_t m, size_t n, const std::string& nm = "m") { V2 v(nm, m, n); for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) v(i, j) = d[i * n + j]; return v; }
inline V3 mk3(const D& d, size_t k, size_t m, size_t n, const std::string& nm = "a") { V3 v(nm, k, m, n); for (size_t q = 0; q < k; ++q) for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) v(q, i, j) = d[(q * m + i) * n + j]; return v; }
inline D get(const V1& v) { D d(v.size()); for (size_t i = 0; i < d.size(); ++i) d[i] = v(i); return d; }
inline D get(const V2& v) { D d; for (size_t i = 0; i < v.extent(0); ++i) for (size_t j = 0; j < v.extent(1); ++j) d.push_back(v(i, j)); return d; }
inline D get(const V3& v) { D d; for (size_t k = 0; k < v.extent(0); ++k) for (size_t i = 0; i < v.extent(1); ++i) for (size_t j = 0; j < v.extent(2); ++j) d.push_back(v(k, i, j)); return d; }
inline double amax(const D& d) { double m = 0; for (double x : d) m = std::max(m, std::fabs(x)); return m; }
inline bool cmp(Ctx& c, const D& got, const D& want, const std::string& key, double scale = 0, double rtol = 1e-9, const std::string& what = "") {
  if (!c.check(got.size() == want.size(), key + "-size", str(got.size(), " vs ", want.size()))) return false;
  bool ok = true; for (size_t i = 0; i < got.size(); ++i) ok = c.close(got[i], want[i], key, scale, rtol, what + str(" @", i)) && ok; return ok; }
inline bool same(Ctx& c, const D& got, const D& want, const std::string& key) { // bit-identical (inputs untouched)
  bool ok = got.size() == want.size() && (got.empty() || memcmp(got.data(), want.data(), got.size() * 8) == 0); return c.check(ok, key, "an input was modified"); }

// dense row-major matrix
struct M { int r = 0, c = 0; D a; M() {} M(int r_, int c_) : r(r_), c(c_), a((size_t)r_ * c_, 0.0) {} double& operator()(int i, int j) { return a[(size_t)i * c + j]; } double operator()(int i, int j) const { return a[(size_t)i * c + j]; } };
inline M mul(const M& A, const M& B) { M C(A.r, B.c); for (int i = 0; i < A.r; ++i) for (int k = 0; k < A.c; ++k) for (int j = 0; j < B.c; ++j) C(i, j) += A(i, k) * B(k, j); return C; }
inline M tr(const M& A) { M C(A.c, A.r); for (int i = 0; i < A.r; ++i) for (int j = 0; j < A.c; ++j) C(j, i) = A(i, j); return C; }
inline D mulv(const M& A, const D& x) { D y(A.r, 0.0); for (int i = 0; i < A.r; ++i) for (int j = 0; j < A.c; ++j) y[i] += A(i, j) * x[j]; return y; }
inline bool solve(M A, D b, D& x) { // partial pivoting
  int n = A.r; for (int k = 0; k < n; ++k) { int p = k; for (int i = k + 1; i < n; ++i) if (std::fabs(A(i, k)) > std::fabs(A(p, k))) p = i; if (std::fabs(A(p, k)) < 1e-13) return false;
    if (p != k) { for (int j = 0; j < n; ++j) std::swap(A(p, j), A(k, j)); std::swap(b[p], b[k]); }
    for (int i = k + 1; i < n; ++i) { double f = A(i, k) / A(k, k); if (f == 0) continue; for (int j = k; j < n; ++j) A(i, j) -= f * A(k, j); b[i] -= f * b[k]; } }
  x.assign(n, 0.0); for (int i = n - 1; i >= 0; --i) { double s = b[i]; for (int j = i + 1; j < n; ++j) s -= A(i, j) * x[j]; x[i] = s / A(i, i); } return true; }

// sparse block matrices
using Mat = Teuchos::RCP<Plato::CrsMatrixType>;
struct Pattern { int nr, nc; std::vector<int> rowmap, col; };
inline Pattern pattern(Rng& g, int nr, int nc, double dens, bool diag, bool sym) {
  std::vector<std::vector<char>> p(nr, std::vector<char>(nc, 0)); for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) if (g.coin(dens)) p[i][j] = 1;
  if (diag) for (int i = 0; i < std::min(nr, nc); ++i) p[i][i] = 1; if (sym) for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) if (p[i][j] && j < nr && i < nc) p[j][i] = 1;
  Pattern q; q.nr = nr; q.nc = nc; q.rowmap = {0}; for (int i = 0; i < nr; ++i) { for (int j = 0; j < nc; ++j) if (p[i][j]) q.col.push_back(j); q.rowmap.push_back(q.col.size()); } return q; }
inline Pattern shuffled(Rng& g, Pattern p) { for (int i = 0; i < p.nr; ++i) for (int k = p.rowmap[i + 1] - 1; k > p.rowmap[i]; --k) std::swap(p.col[k], p.col[g.in(p.rowmap[i], k)]); return p; }
inline Mat build(const Pattern& p, const D& e, int br, int bc) { Plato::CrsMatrixType::RowMapVector rm("rm", p.rowmap.size()); Plato::CrsMatrixType::OrdinalVector ci("ci", p.col.size()); Plato::CrsMatrixType::ScalarVector en("en", e.size());
  for (size_t i = 0; i < p.rowmap.size(); ++i) rm(i) = p.rowmap[i]; for (size_t i = 0; i < p.col.size(); ++i) ci(i) = p.col[i]; for (size_t i = 0; i < e.size(); ++i) en(i) = e[i];
  return Teuchos::rcp(new Plato::CrsMatrixType(rm, ci, en, p.nr * br, p.nc * bc, br, bc)); }
inline Mat randmat(Rng& g, const Pattern& p, int br, int bc) { return build(p, rnd(g, p.col.size() * br * bc), br, bc); }
// dense image of a block CRS matrix; also checks well-formedness
inline M dense(Ctx& c, const Mat& A, const std::string& key) { int br = A->numRowsPerBlock(), bc = A->numColsPerBlock(); auto rm = A->rowMap(); auto ci = A->columnIndices(); auto e = A->entries(); M d(A->numRows(), A->numCols());
  c.check((int)rm.size() == A->numRows() / br + 1 && rm(0) == 0 && (size_t)rm(rm.size() - 1) == ci.size() && e.size() == ci.size() * br * bc, key + "-wellformed", str("rowmap ", rm.size(), " cols ", ci.size(), " entries ", e.size()));
  for (int i = 0; i + 1 < (int)rm.size(); ++i) for (int k = rm(i); k < rm(i + 1); ++k) { if (!c.check(k >= 0 && k < (int)ci.size() && ci(k) >= 0 && ci(k) * bc < A->numCols(), key + "-index", str("row ", i, " k ", k))) return d;
    for (int a = 0; a < br; ++a) for (int b = 0; b < bc; ++b) d(i * br + a, ci(k) * bc + b) += e((k * br + a) * bc + b); } return d; }
}
