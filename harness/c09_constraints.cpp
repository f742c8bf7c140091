// C09: essential constraints: constrained rows/columns decouple, the constrained solution takes the prescribed values and solves the rest.
#include "kk.hpp"
#include "ApplyConstraints.hpp"
using namespace vh; using namespace kk;
namespace {
template <int N> void one(Ctx& c, bool block, bool sym, bool many = false) { auto& g = c.rng;
  int n = many ? g.in(900 / N, 1500 / N) : g.num(8, 40); auto p = pattern(g, n, n, many ? 4.0 / n : g.uni(0.1, 0.9), true, true); if (g.coin()) p = shuffled(g, p); int nd = n * N; Mat A; D e;
  // values: block matrix in node/block layout, or scalar CRS with the expanded pattern
  M K(nd, nd); for (int i = 0; i < n; ++i) for (int k = p.rowmap[i]; k < p.rowmap[i + 1]; ++k) for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) K(i * N + a, p.col[k] * N + b) = g.uni(-1, 1);
  if (sym) for (int i = 0; i < nd; ++i) for (int j = 0; j < i; ++j) K(i, j) = K(j, i); for (int i = 0; i < nd; ++i) K(i, i) += (g.coin() ? 1 : 1) * (nd + 1.0);
  if (block) { for (int i = 0; i < n; ++i) for (int k = p.rowmap[i]; k < p.rowmap[i + 1]; ++k) for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) e.push_back(K(i * N + a, p.col[k] * N + b)); A = build(p, e, N, N); }
  else { Pattern q; q.nr = q.nc = nd; q.rowmap = {0}; for (int i = 0; i < nd; ++i) { for (int k = p.rowmap[i / N]; k < p.rowmap[i / N + 1]; ++k) for (int b = 0; b < N; ++b) { q.col.push_back(p.col[k] * N + b); e.push_back(K(i, p.col[k] * N + b)); } q.rowmap.push_back(q.col.size()); } A = build(q, e, 1, 1); }
  std::vector<int> dofs; for (int i = 0; i < nd; ++i) if (g.coin(0.35)) dofs.push_back(i); for (int i = (int)dofs.size() - 1; i > 0; --i) std::swap(dofs[i], dofs[g.in(0, i)]);
  D vals = uni(g, dofs.size(), -3, 3), b = uni(g, nd, -5, 5); for (auto& v : vals) if (g.coin(0.2)) v = 0; if (!dofs.empty() && g.coin(0.3)) for (int q = g.in(1, 3); q > 0; --q) { int i = g.in(0, (int)dofs.size() - 1); dofs.push_back(dofs[i]); vals.push_back(vals[i]); } /* overlapping sets */ double sc = g.coin() ? 1.0 : g.coin(0.3) ? 0.0 : g.uni(-2, 2); bool deflt = sc == 1.0 && g.coin();
  c.begin(str("bc N=", N, " nodes=", n, " block=", block, " sym=", sym, " nbc=", dofs.size(), " scale=", sc, " pat=", hstr(std::string((char*)p.col.data(), 4 * p.col.size())), " dofs=", hstr(std::string((char*)dofs.data(), 4 * dofs.size()))), !dofs.empty() && (int)dofs.size() < nd);
  auto B = mk1(b); auto Dd = mko(dofs); auto Vv = mk1(vals); D v0 = get(Vv);
  if (block) { if (deflt) Plato::applyBlockConstraints<N>(A, B, Dd, Vv); else Plato::applyBlockConstraints<N>(A, B, Dd, Vv, sc); } else { if (deflt) Plato::applyConstraints<N>(A, B, Dd, Vv); else Plato::applyConstraints<N>(A, B, Dd, Vv, sc); }
  M o = dense(c, A, "bc"); std::vector<int> isbc(nd, -1); for (size_t i = 0; i < dofs.size(); ++i) isbc[dofs[i]] = i;
  bool okr = true, okc = true, oku = true; for (int i = 0; i < nd; ++i) for (int j = 0; j < nd; ++j) { if (isbc[i] >= 0) okr = okr && o(i, j) == (i == j ? 1.0 : 0.0); else if (isbc[j] >= 0) okc = okc && o(i, j) == 0.0; else oku = oku && o(i, j) == K(i, j); }
  c.check(okr, "bc-row-identity"); c.check(okc, "bc-column-zero"); c.check(oku, "bc-other-entries-untouched");
  for (size_t i = 0; i < dofs.size(); ++i) c.close(B(dofs[i]), sc * vals[i], "bc-rhs-value", 0, 1e-15);
  same(c, get(Vv), v0, "bc-input"); bool od = true; for (size_t i = 0; i < dofs.size(); ++i) od = od && Dd(i) == dofs[i]; c.check(od, "bc-input");
  { // the constrained system's solution satisfies the original equations at the free dofs
    D x; if (many) {} else if (solve(o, get(B), x)) { for (int i = 0; i < nd; ++i) { if (isbc[i] >= 0) c.close(x[i], sc * vals[isbc[i]], "bc-solution-prescribed", 1, 1e-9); else { double r = -b[i]; for (int j = 0; j < nd; ++j) r += K(i, j) * x[j]; c.close(r, 0, "bc-solution-equilibrium", 20 * nd, 1e-9); } } } else c.check(false, "bc-solvable");
    // right-hand side itself
    for (int i = 0; i < nd; ++i) if (isbc[i] < 0) { double w = b[i]; for (int j = 0; j < nd; ++j) if (isbc[j] >= 0) w -= K(i, j) * sc * vals[isbc[j]]; c.close(B(i), w, "bc-rhs-load", 20, 1e-11); } }
  // applying the same constraints again changes nothing
  D b1 = get(B), e1 = get(A->entries()); if (block) Plato::applyBlockConstraints<N>(A, B, Dd, Vv, sc); else Plato::applyConstraints<N>(A, B, Dd, Vv, sc); cmp(c, get(B), b1, "bc-idempotent", 1, 1e-13); cmp(c, get(A->entries()), e1, "bc-idempotent", 1, 1e-13);
}
template <int N> void grp(Ctx& c) { for (int k = 0; k < c.n(400, 8000); ++k) { one<N>(c, true, true); one<N>(c, false, true); one<N>(c, true, false); one<N>(c, false, false); } }
}
VH_GROUP(constraints_1dof) { grp<1>(c); }
VH_GROUP(constraints_2dof) { grp<2>(c); }
VH_GROUP(constraints_3dof) { grp<3>(c); }
VH_GROUP(constraints_4dof) { grp<4>(c); }
VH_GROUP(constraints_many) { for (int k = 0; k < c.n(1, 10); ++k) { one<1>(c, false, true, true); one<3>(c, true, true, true); one<3>(c, false, false, true); one<2>(c, true, false, true); } }
VH_GROUP(constraints_sequence) { auto& g = c.rng; // splitting one constraint set over two calls is the same as one call
  for (int k = 0; k < c.n(500, 8000); ++k) { const int N = 3; int n = g.in(2, 7), nd = n * N; auto p = pattern(g, n, n, 0.5, true, true); if (g.coin()) p = shuffled(g, p); M K(nd, nd); for (int i = 0; i < nd; ++i) for (int j = 0; j <= i; ++j) K(i, j) = K(j, i) = g.uni(-1, 1); D e; for (int i = 0; i < n; ++i) for (int q = p.rowmap[i]; q < p.rowmap[i + 1]; ++q) for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) e.push_back(K(i * N + a, p.col[q] * N + b));
    auto A = build(p, e, N, N), A2 = build(p, e, N, N); D b = uni(g, nd, -5, 5); auto B = mk1(b), B2 = mk1(b); std::vector<int> d1, d2, all; D v1, v2, va; for (int i = 0; i < nd; ++i) if (g.coin(0.4)) { double v = g.uni(-2, 2); all.push_back(i); va.push_back(v); if (g.coin()) { d1.push_back(i); v1.push_back(v); } else { d2.push_back(i); v2.push_back(v); } }
    c.begin(str("seq n=", n, " ", d1.size(), "+", d2.size(), " ", b[0]), !d1.empty() && !d2.empty()); Plato::applyBlockConstraints<N>(A, B, mko(all), mk1(va)); Plato::applyBlockConstraints<N>(A2, B2, mko(d1), mk1(v1)); Plato::applyBlockConstraints<N>(A2, B2, mko(d2), mk1(v2)); cmp(c, get(A2->entries()), get(A->entries()), "bc-split-matrix", 1, 1e-13); cmp(c, get(B2), get(B), "bc-split-rhs", 10, 1e-12); } }
