// C04: stress and strain measures: invariants, deviators, Cauchy stress, energies and norms.
#include "geom.hpp"
#include <Teuchos_ParameterList.hpp>
#include "ComputeCauchyStress.hpp"
#include "ComputeDeviatoricStrain.hpp"
#include "ComputeDeviatoricStress.hpp"
#include "ComputeElasticWork.hpp"
#include "ComputeStabilization.hpp"
#include "DoubleDotProduct2ndOrderTensor.hpp"
#include "Eigenvalues.hpp"
#include "TensileEnergyDensity.hpp"
#include "TensorPNorm.hpp"
#include "VectorPNorm.hpp"
#include "VonMisesYieldFunction.hpp"
#include "VoigtMap.hpp"
using namespace kk; using namespace gm; using PL = Teuchos::ParameterList;
static V2 rows(Rng& g, int n, int w) { V2 v("r", n, w); double sc = g.coin(0.3) ? std::pow(10, g.uni(-5, 5)) : 1; for (int i = 0; i < n; ++i) { int kind = g.in(0, 7); double a = g.real(); for (int j = 0; j < w; ++j) v(i, j) = sc * (kind == 0 ? (j == 0 ? a : 0) : kind == 1 ? (j < 3 ? a : 0) : kind == 2 ? (j >= w / 2 ? g.uni(-2, 2) : 0) : kind == 3 ? g.in(-2, 2) : kind == 7 ? g.sgn() * std::pow(10, -g.uni(0, g.coin() ? 2 : 16)) : g.uni(-2, 2)); } return v; }
static void jacobi(std::vector<D> A, D& w) { int d = A.size(); for (int s = 0; s < 60; ++s) for (int p = 0; p < d; ++p) for (int q = p + 1; q < d; ++q) { if (A[p][q] == 0) continue; double th = 0.5 * std::atan2(2 * A[p][q], A[q][q] - A[p][p]), c = std::cos(th), t = std::sin(th); for (int k = 0; k < d; ++k) { double x = A[k][p], y = A[k][q]; A[k][p] = c * x - t * y; A[k][q] = t * x + c * y; } for (int k = 0; k < d; ++k) { double x = A[p][k], y = A[q][k]; A[p][k] = c * x - t * y; A[q][k] = t * x + c * y; } } w.clear(); for (int i = 0; i < d; ++i) w.push_back(A[i][i]); std::sort(w.begin(), w.end()); }
static std::vector<D> rot(Rng& g) { std::vector<D> R(3, D(3)); double q[4], n = 0; for (auto& x : q) { x = g.uni(-1, 1); n += x * x; } n = std::sqrt(n); for (auto& x : q) x /= n; double a = q[0], b = q[1], c = q[2], d = q[3];
  R[0] = {a * a + b * b - c * c - d * d, 2 * (b * c - a * d), 2 * (b * d + a * c)}; R[1] = {2 * (b * c + a * d), a * a - b * b + c * c - d * d, 2 * (c * d - a * b)}; R[2] = {2 * (b * d - a * c), 2 * (c * d + a * b), a * a - b * b - c * c + d * d}; return R; }
static D unvoigt(int d, const std::vector<D>& t) { D v; for (auto p : voigt(d)) v.push_back(t[p.first][p.second]); return v; }
static D rotated(int d, const D& v, const std::vector<D>& R) { auto T = tens(d, v); std::vector<D> S(d, D(d, 0.0)); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) for (int k = 0; k < d; ++k) for (int l = 0; l < d; ++l) S[i][j] += R[i][k] * T[k][l] * R[j][l]; return unvoigt(d, S); }
static std::vector<D> rotd(Rng& g, int d) { if (d == 3) return rot(g); double t = g.uni(-3, 3); return {{std::cos(t), -std::sin(t)}, {std::sin(t), std::cos(t)}}; }
static V2 put(const D& v) { return mk2(v, 1, v.size()); }

template <int d> static void vm(Ctx& c) { auto& g = c.rng; const int n = g.num(6); V2 s = rows(g, n, nv(d)); V1 o("o", n); for (int i = 0; i < n; ++i) o(i) = -1; c.begin(str("von Mises d=", d, " s=", vh::vec(row(s, 0)))); Plato::VonMisesYieldFunction<d> f; int only = g.in(0, n - 1); f(only, s, o); for (int i = 0; i < n; ++i) if (i != only) c.check(o(i) == -1, "von-mises-other-cell"); for (int i = 0; i < n; ++i) f(i, s, o);
  for (int i = 0; i < n; ++i) { D r = row(s, i); double m = amax(r); if (d == 1) { c.close(o(i), r[0], "von-mises-1d", 0, 1e-13); continue; } double S[6] = {0, 0, 0, 0, 0, 0}; S[0] = r[0]; S[1] = r[1]; if (d == 2) S[5] = r[2]; else for (int k = 2; k < 6; ++k) S[k] = r[k]; double p = (S[0] + S[1] + S[2]) / 3, J2 = 0.5 * ((S[0] - p) * (S[0] - p) + (S[1] - p) * (S[1] - p) + (S[2] - p) * (S[2] - p)) + S[3] * S[3] + S[4] * S[4] + S[5] * S[5]; c.check(std::fabs(o(i) * o(i) - 3 * J2) <= 1e-12 * m * m + 1e-280, "von-mises", str(o(i), " vs ", std::sqrt(3 * J2))); c.check(o(i) >= 0, "von-mises-nonnegative");
    V1 q("q", 1); f(0, put(rotated(d, r, rotd(g, d))), q); c.check(std::fabs(q(0) * q(0) - o(i) * o(i)) <= 1e-11 * m * m + 1e-280, "von-mises-frame-invariant", str(q(0), " ", o(i))); double k = g.real(); D sc = r; for (auto& x : sc) x *= k; f(0, put(sc), q); c.check(std::fabs(q(0) - std::fabs(k) * o(i)) <= 1e-10 * std::fabs(k) * m + 1e-280, "von-mises-homogeneous"); if (d == 3) { D h = r; for (int j = 0; j < 3; ++j) h[j] += k * m; f(0, put(h), q); c.check(std::fabs(q(0) * q(0) - o(i) * o(i)) <= 1e-10 * m * m * (1 + k * k) + 1e-280, "von-mises-pressure-insensitive"); } } }
VH_GROUP(von_mises) { for (int i = 0; i < c.n(600, 15000); ++i) { vm<1>(c); vm<2>(c); vm<3>(c); } }

template <int d> static void eig(Ctx& c) { auto& g = c.rng; const int n = g.num(4); V2 s = rows(g, n, nv(d)); bool strain = g.coin(); int its = g.coin() ? 6 : g.in(14, 30); V2 e("e", n, d); for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) e(i, j) = 99; c.begin(str("eigenvalues d=", d, " strain=", strain, " iterations=", its, " t=", vh::vec(row(s, 0)))); Plato::Eigenvalues<d> f(its), dflt; D s0 = get(s); if (g.coin()) { Plato::Eigenvalues<d> h; h.setNumFixedIterations(its); f = h; } int only = g.in(0, n - 1); f(only, s, e, strain); for (int i = 0; i < n; ++i) if (i != only) c.check(e(i, 0) == 99, "eigenvalues-other-cell"); for (int i = 0; i < n; ++i) f(i, s, e, strain); same(c, get(s), s0, "tensor-untouched");
  for (int i = 0; i < n; ++i) { D r = row(s, i); if (strain) for (int k = d; k < nv(d); ++k) r[k] /= 2; auto T = tens(d, r); D w, got = row(e, i); jacobi(T, w); std::sort(got.begin(), got.end()); double m = amax(r), tol = (its >= 14 || d < 3) ? 1e-11 : 2e-4; bool tiny = m < 1e-9; if (tiny) tol = 1e-4; for (int j = 0; j < d; ++j) c.close(got[j], w[j], its >= 14 || d < 3 ? "eigenvalues" : "eigenvalues-default-iterations", m, tol, vh::vec(r)); double t0 = 0, t1 = 0; for (int j = 0; j < d; ++j) { t0 += T[j][j]; t1 += got[j]; } c.close(t1, t0, "trace-preserved", m, 1e-12); }
  if (its == 6) { V2 e2("e", n, d); for (int i = 0; i < n; ++i) dflt(i, s, e2, strain); same(c, get(e2), get(e), "six-iterations-by-default"); } }
VH_GROUP(eigenvalues) { for (int i = 0; i < c.n(600, 15000); ++i) { eig<1>(c); eig<2>(c); eig<3>(c); } }

// width of the plasticity tensors: 2D plane strain carries the out-of-plane normal term last
static int pw(int d) { return d == 3 ? 6 : d == 2 ? 4 : 1; } static std::vector<int> nrm(int d) { return d == 3 ? std::vector<int>{0, 1, 2} : d == 2 ? std::vector<int>{0, 1, 3} : std::vector<int>{0}; } static std::vector<int> shr(int d) { return d == 3 ? std::vector<int>{3, 4, 5} : d == 2 ? std::vector<int>{2} : std::vector<int>{}; }
template <int d> static void split(Ctx& c) { auto& g = c.rng; const int n = g.num(6); V2 e = rows(g, n, pw(d)), f2 = rows(g, n, pw(d)); double G = g.pos(), K = g.pos(); c.begin(str("split d=", d, " G=", G, " K=", K, " e=", vh::vec(row(e, 0)))); D e0 = get(e); auto N = nrm(d); auto S = shr(d); V2 dv("d", n, pw(d)), ds("ds", n, pw(d)), cs("cs", n, pw(d)); V1 wk("w", n), dd("dd", n); Plato::ComputeDeviatoricStrain<d> fd; Plato::ComputeDeviatoricStress<d> fs; Plato::ComputeCauchyStress<d> fc; Plato::ComputeElasticWork<d> fw; Plato::DoubleDotProduct2ndOrderTensor<d> fdd; int only = g.in(0, n - 1); for (V2* v : {&dv, &ds, &cs}) for (int i = 0; i < n; ++i) for (int j = 0; j < pw(d); ++j) (*v)(i, j) = 77; for (int i = 0; i < n; ++i) wk(i) = dd(i) = 77;
  fd(only, e, dv); fs(only, G, e, ds); fc(only, K, G, e, cs); fw(only, G, K, e, dv, wk); fdd(only, e, f2, dd); for (int i = 0; i < n; ++i) if (i != only) { c.check(dv(i, 0) == 77 && ds(i, 0) == 77 && cs(i, 0) == 77 && wk(i) == 77 && dd(i) == 77, "split-other-cell"); } for (int i = 0; i < n; ++i) { fd(i, e, dv); fs(i, G, e, ds); fc(i, K, G, e, cs); fw(i, G, K, e, dv, wk); fdd(i, e, f2, dd); } same(c, get(e), e0, "strain-untouched");
  for (int i = 0; i < n; ++i) { D r = row(e, i); double m = amax(r), tr = 0; for (int k : N) tr += r[k]; D wd = r; for (int k : N) wd[k] -= tr / 3; cmp(c, row(dv, i), wd, "deviatoric-strain", m, 1e-12); double t = 0; if (d > 1) { for (int k : N) t += dv(i, k); c.check(std::fabs(t) <= 1e-12 * m + 1e-280, "deviator-traceless", str(t)); }
    D ws = wd; for (int k : N) ws[k] *= 2 * G; for (int k : S) ws[k] = G * r[k]; cmp(c, row(ds, i), ws, "deviatoric-stress", G * m, 1e-12);
    D wc = ws; for (int k : N) wc[k] += K * tr; double sc = (K + G) * m * 3;
    // two deviations of the unchanged tree that its own tests pin down (see DESIGN.md) are recognised by their exact formula
    D got = row(cs, i); bool ok = true; for (size_t k = 0; k < wc.size(); ++k) ok = ok && vh::Ctx::close_(got[k], wc[k], 1e-11, 1e-11 * sc + 1e-280); if (ok) { for (size_t k = 0; k < wc.size(); ++k) c.check(true, "cauchy-stress"); }
    else { D kw = wc; std::string key = "cauchy-stress"; if (d == 3) { double t2 = r[0] + r[1] + r[3]; for (int k = 0; k < 3; ++k) kw[k] = 2 * G * (r[k] - t2 / 3) + K * t2; key = "cauchy-stress-3d-trace-takes-shear-yz"; } if (d == 1) { kw[0] = 2 * G * (r[0] - r[0] / 3) + K * r[0] / 3; key = "cauchy-stress-1d-bulk-term-over-3"; } bool known = true; for (size_t k = 0; k < kw.size(); ++k) known = known && vh::Ctx::close_(got[k], kw[k], 1e-11, 1e-11 * sc + 1e-280); c.check(false, (known && d != 2) ? key : std::string("cauchy-stress"), str("observed ", vh::vec(got), " expected ", vh::vec(wc))); }
    double dev2 = 0; for (int k : N) dev2 += wd[k] * wd[k]; for (int k : S) dev2 += 2 * wd[k] * wd[k]; c.close(wk(i), G * dev2 + 0.5 * K * tr * tr, "elastic-work", (G + K) * m * m, 1e-12); c.check(wk(i) >= 0, "elastic-work-nonnegative"); D b = row(f2, i); double w2 = 0, ab = 0; for (int k : N) { w2 += r[k] * b[k]; ab += std::fabs(r[k] * b[k]); } for (int k : S) { w2 += 2 * r[k] * b[k]; ab += 2 * std::fabs(r[k] * b[k]); } c.close(dd(i), w2, "double-dot", ab, 1e-12); V1 x("x", n); fdd(i, f2, e, x); c.close(x(i), dd(i), "double-dot-symmetric", ab, 1e-13); } }
VH_GROUP(split) { for (int i = 0; i < c.n(600, 15000); ++i) { split<1>(c); split<2>(c); split<3>(c); } }

template <int d> static void misc(Ctx& c) { auto& g = c.rng; const int n = g.num(6);
  { V2 p = rows(g, n, d), q = rows(g, n, d), o("o", n, d); D vol(n); for (auto& x : vol) x = g.pos(); V1 v = mk1(vol); double sc = g.pos(), G = g.pos(); c.begin(str("stabilization d=", d, " scale=", sc, " G=", G, " p=", p(0, 0), " vol=", vol[0])); Plato::ComputeStabilization<d> f(sc, G); for (int i = n - 1; i >= 0; --i) { f(i, v, p, q, o); for (int j = 0; j < i; ++j) c.check(o(j, 0) == 0, "stabilization-other-cell"); } for (int i = 0; i < n; ++i) { double tau = std::cbrt(vol[i] * vol[i]) / (2 * G); D w; for (int j = 0; j < d; ++j) w.push_back(sc * tau * (sc * p(i, j) - q(i, j))); cmp(c, row(o, i), w, "stabilization", sc * tau * (sc * amax(row(p, i)) + amax(row(q, i))), 1e-12); } }
  { V2 e = rows(g, n, d); double la = g.real(), mu = g.pos(); V1 o("o", n); c.begin(str("tensile energy d=", d, " lambda=", la, " mu=", mu, " e=", vh::vec(row(e, 0)))); Plato::TensileEnergyDensity<d> f; for (int i = 0; i < n; ++i) o(i) = 5; for (int i = 0; i < n; ++i) { f(i, e, la, mu, o); for (int j = i + 1; j < n; ++j) c.check(o(j) == 5, "tensile-other-cell"); double tr = 0, w = 0, m = amax(row(e, i)); for (int j = 0; j < d; ++j) { tr += e(i, j); if (e(i, j) > 0) w += mu * e(i, j) * e(i, j); } if (tr > 0) w += 0.5 * la * tr * tr; c.close(o(i), w, "tensile-energy", (mu + std::fabs(la)) * m * m * d * d, 1e-12); } }
  { V2 a = rows(g, n, d); D vol(n); for (auto& x : vol) x = g.pos(); V1 v = mk1(vol), o("o", n); int p = g.coin(0.8) ? g.in(1, 8) : g.in(9, 40); c.begin(str("vector p-norm d=", d, " p=", p, " a=", vh::vec(row(a, 0)))); Plato::VectorPNorm<d> f; for (int i = 0; i < n; ++i) { f(i, o, a, p, v); double s = 0; for (int j = 0; j < d; ++j) s += a(i, j) * a(i, j); double w = std::pow(s, p / 2.0) * vol[i]; if (std::isfinite(w) && (w == 0 || std::fabs(w) > 1e-280)) c.close(o(i), w, "vector-p-norm", 0, 1e-10); } }
  { Plato::VoigtMap<d> m; auto vg = voigt(d); for (int k = 0; k < nv(d); ++k) c.check((m.I[k] == vg[k].first && m.J[k] == vg[k].second) || (m.J[k] == vg[k].first && m.I[k] == vg[k].second), "voigt-map", str(k, ": ", m.I[k], ",", m.J[k])); } }
VH_GROUP(misc) { for (int i = 0; i < c.n(400, 8000); ++i) { misc<1>(c); misc<2>(c); misc<3>(c); } }

struct Ev { using ResultScalarType = double; using ControlScalarType = double; using ConfigScalarType = double; };
template <int d> static void norms(Ctx& c) { auto& g = c.rng; const int n = g.num(6), w = nv(d); V2 s("s", n, w); for (int i = 0; i < n; ++i) { int kind = g.in(0, 5); for (int j = 0; j < w; ++j) s(i, j) = kind == 0 ? (j == 0 ? g.uni(-2, 2) : 0) : kind == 1 ? (j >= d ? g.uni(-2, 2) : 0) : g.uni(-2, 2); } V2 ctl("c", n, d + 1); D vol(n); for (auto& x : vol) x = g.pos(); V1 v = mk1(vol), o("o", n); double p = g.coin(0.15) ? g.in(11, 60) : g.coin(0.6) ? g.in(1, 10) : g.uni(1, 9); PL pl; pl.set("Exponent", p); int kind = g.in(0, 3); double ref = 1, wt = 1; int be = 6; std::vector<D> T1(6, D(6, 0.0)), T2(6, D(6, 0.0));
  if (kind == 1) { PL& q = pl.sublist("Normalize"); q.set("Type", std::string("Scalar")); if (g.coin(0.7)) { ref = g.pos(); q.sublist("Scalar").set("Reference Weight", ref); } if (g.coin(0.7)) { wt = g.pos(); q.sublist("Scalar").set("Scalar Product Weight", wt); } }
  if (kind == 2) { PL& q = pl.sublist("Normalize"); q.set("Type", std::string("Barlat")); PL& b = q.sublist("Barlat"); if (g.coin(0.7)) { ref = g.pos(); b.set("Reference Weight", ref); } if (g.coin(0.7)) { be = 2 * g.in(1, 5); b.set("Barlat Exponent", be); } bool iso = g.coin(0.4), full = g.coin(0.3); for (int i = 0; i < 6; ++i) { Teuchos::Array<double> a(6), z(6); for (int j = 0; j < 6; ++j) { T1[i][j] = iso ? (i == j) : full || ((i < 3) == (j < 3) && (i < 3 || i == j)) ? g.uni(-0.3, 0.3) + (i == j) : 0; T2[i][j] = iso ? (i == j) : full || ((i < 3) == (j < 3) && (i < 3 || i == j)) ? g.uni(-0.3, 0.3) + (i == j) : 0; a[j] = T1[i][j]; z[j] = T2[i][j]; } b.set(str("T1", i), a); b.set(str("T2", i), z); } }
  if (kind == 3) { pl.sublist("Normalize").set("Type", std::string("p")); }
  c.begin(str("tensor norm d=", d, " kind=", kind, " p=", p, " ref=", ref, " w=", wt, " be=", be, " s=", vh::vec(row(s, 0)))); Plato::TensorNormFactory<nv(d), Ev> fac; auto f = fac.create(pl); if (!c.check(!f.is_null(), "norm-created")) return; f->evaluate(o, s, ctl, v); double tot = 0;
  for (int i = 0; i < n; ++i) { D r = row(s, i); double q = 0, want; for (double x : r) q += x * x; if (kind == 0 || kind == 3) want = std::pow(q, p / 2) * vol[i]; else if (kind == 1) want = std::pow(std::sqrt(wt * q) / ref, p) * vol[i]; else { D f6(6, 0.0); if (d == 3) f6 = r; else if (d == 2) { f6[0] = r[0]; f6[1] = r[1]; f6[5] = r[2]; } else f6[0] = r[0]; double pr = (f6[0] + f6[1] + f6[2]) / 3; for (int k = 0; k < 3; ++k) f6[k] -= pr; D a(6, 0.0), b(6, 0.0); for (int k = 0; k < 6; ++k) for (int j = 0; j < 6; ++j) { a[k] += T1[k][j] * f6[j]; b[k] += T2[k][j] * f6[j]; } D wa, wb; jacobi(tens(3, a), wa); jacobi(tens(3, b), wb); double S = 0; for (double x : wa) for (double y : wb) S += std::pow(std::fabs(x - y), be); want = std::pow(std::pow(S / 4, 1.0 / be) / ref, p) * vol[i]; }
    if (!std::isfinite(want) || (want != 0 && std::fabs(want) < 1e-280)) return; double tol = kind == 2 ? 1e-6 * p : 1e-10; c.close(o(i), want, kind == 1 ? "weighted-norm" : kind == 2 ? "barlat-norm" : "tensor-p-norm", std::pow(std::pow(4.0 * amax(r) * (kind == 2 ? 1 / ref : 1), p), 1) * (kind == 2 ? vol[i] * 1e-6 : 0), tol); tot += o(i); }
  if (!(tot > 1e-150) || !std::isfinite(tot)) return; double val = tot; f->postEvaluate(val); c.close(val, std::pow(tot, 1 / p), "norm-root", 0, 1e-10); D gr = rnd(g, 5); V1 gv = mk1(gr); f->postEvaluate(gv, tot); D want = gr; double dr = std::pow(tot, 1 / p - 1) / p; for (auto& x : want) x *= dr; cmp(c, get(gv), want, "norm-root-gradient", 0, 1e-10); double h = 1e-6 * tot, fp = std::pow(tot + h, 1 / p), fm = std::pow(tot - h, 1 / p); c.close(gr[0] == 0 ? dr : gv(0) / gr[0], (fp - fm) / (2 * h), "norm-root-gradient-matches-difference", 0, 1e-5); }
VH_GROUP(norms) { for (int i = 0; i < c.n(600, 12000); ++i) { norms<1>(c); norms<2>(c); norms<3>(c); } }
VH_GROUP(norm_inputs) { auto& g = c.rng; for (int i = 0; i < c.n(30, 200); ++i) { c.begin(str("norm inputs ", i, " ", g.u01())); Plato::TensorNormFactory<6, Ev> fac; PL a; c.rejects([&] { fac.create(a); }, "norm-needs-exponent"); PL b; b.set("Exponent", 2.0); b.sublist("Normalize"); c.rejects([&] { fac.create(b); }, "norm-needs-type"); b.sublist("Normalize").set("Type", std::string("Barlat")); c.rejects([&] { fac.create(b); }, "barlat-needs-coefficients"); } }
