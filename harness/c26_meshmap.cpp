// C26: mesh maps.  The value carried to a node is the field at the node's mirror image, the filter is a weighted mean over
// its radius, and the transposed map is the exact adjoint, against an independent search and interpolation.
#include "sim.hpp"
#include "Plato_InputData.hpp"
#include "PlatoStaticsTypes.hpp"
#include "Plato_MeshMap.hpp"
using namespace sim; using Plato::InputData;
typedef Plato::Geometry::MeshMap<double> MM;
static std::string num(double x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
static InputData xyz(const char* n, const D& v) { InputData d(n); d.add("X", num(v[0])); d.add("Y", num(v[1])); d.add("Z", num(v[2])); return d; }
// sparse rows computed here; known[i] false where the mirror image lies outside the mesh but inside an inflated cell box
struct Rows { std::vector<std::map<int, double>> a; std::vector<char> known; D mul(const D& u) const { D w(a.size(), 0.0); for (size_t i = 0; i < a.size(); ++i) for (auto& e : a[i]) w[i] += e.second * u[e.first]; return w; } D mulT(const D& u) const { D w(a.size(), 0.0); for (size_t i = 0; i < a.size(); ++i) for (auto& e : a[i]) w[e.first] += e.second * u[i]; return w; } };
static Rows mirror(const Geo& g, bool full, const D& o, const D& n, std::vector<int>& kind, std::vector<D>& image) { int N = g.nn(); Rows R; R.a.resize(N); R.known.assign(N, 1); kind.assign(N, 0); image.resize(N); std::vector<Cell> cs; for (int e = 0; e < g.ne(); ++e) cs.push_back(cell(g, e)); double L = std::sqrt(dot(n, n));
  for (int v = 0; v < N; ++v) { D x(g.xyz.begin() + 3 * v, g.xyz.begin() + 3 * v + 3); image[v] = x; double p = 0; for (int i = 0; i < 3; ++i) p += (x[i] - o[i]) * n[i] / L; if (full || p >= 0) { R.a[v][v] = 1; continue; } for (int i = 0; i < 3; ++i) x[i] -= 2 * p * n[i] / L; image[v] = x;
    double best = -1e300; int at = -1; bool box = false, tie = false; for (int e = 0; e < g.ne(); ++e) { auto& q = cs[e]; bool in = true; for (int i = 0; i < 3; ++i) { double lo = 1e300, hi = -1e300; for (int w : q.v) { lo = std::min(lo, g.xyz[w * 3 + i]); hi = std::max(hi, g.xyz[w * 3 + i]); } double t = 0.01 * (hi - lo); if (std::min(std::fabs(x[i] - lo + t), std::fabs(x[i] - hi - t)) < 1e-10) tie = true; in = in && x[i] >= lo - t && x[i] <= hi + t; } double mn = 1e300; for (size_t a = 0; a < q.v.size(); ++a) { double b = 1; for (int i = 0; i < 3; ++i) b += q.grad[a][i] * (x[i] - g.xyz[q.v[a] * 3 + i]); mn = std::min(mn, b); } box = box || in; if (mn > best) { best = mn; at = e; } }
    if (best < -1e-9) { R.known[v] = 0; kind[v] = tie ? 3 : box ? 2 : 4; if (kind[v] == 4) R.known[v] = 1; continue; } kind[v] = 1; auto& q = cs[at]; for (size_t a = 0; a < q.v.size(); ++a) { double b = 1; for (int i = 0; i < 3; ++i) b += q.grad[a][i] * (x[i] - g.xyz[q.v[a] * 3 + i]); R.a[v][q.v[a]] += b; } } return R; }
static Rows cone(const Geo& g, double rad, bool& tie) { int N = g.nn(); Rows R; R.a.resize(N); for (int v = 0; v < N; ++v) { double t = 0; for (int w = 0; w < N; ++w) { double d2 = 0; for (int i = 0; i < 3; ++i) d2 += std::pow(g.xyz[v * 3 + i] - g.xyz[w * 3 + i], 2); double d = std::sqrt(d2); if (std::fabs(d - rad) < 1e-9) tie = true; if (d < rad) { R.a[v][w] = rad - d; t += rad - d; } } for (auto& e : R.a[v]) e.second /= t; } return R; }
static V1 view(const D& u) { V1 v("u", u.size()); for (size_t i = 0; i < u.size(); ++i) v(i) = u[i]; return v; }
static D app(MM& m, const D& u, bool T, bool& kept) { V1 a = view(u), b("out", u.size()); for (size_t i = 0; i < u.size(); ++i) b(i) = 1e30; if (T) m.applyT(a, b); else m.apply(a, b); kept = get(a) == u; return get(b); }
struct Clean { ~Clean() { Omega_h::mesh_files().clear(); Omega_h::read_sets() = Omega_h::MeshSets(); } }; // before Kokkos ends
SIM_GROUP(maps) { Clean clean; auto& r = c.rng; long inside = 0, outside = 0, lost = 0, mirrored = 0, filtered = 0;
  for (int it = 0; it < c.n(160, 4000); ++it) { bool full = r.coin(0.15), regular = r.coin(0.35), dofilter = r.coin(0.6), first = r.coin(), dflt = r.coin(0.3); if (dflt) first = true; Geo g = box(r, 3, 4, regular ? 0.0 : r.coin() ? 0.12 : 0.05, true, 1); int N = g.nn();
    D o(3), n(3), mid(3); for (int i = 0; i < 3; ++i) mid[i] = 0.5 * g.L[i]; if (r.coin(0.5)) { int ax = r.in(0, 2); n[ax] = r.coin() ? r.uni(0.2, 3) : -r.uni(0.2, 3); o = mid; o[ax] = r.coin(0.5) ? mid[ax] : r.uni(0.2, 0.8) * g.L[ax]; for (int i = 0; i < 3; ++i) if (i != ax) o[i] = r.uni(-3, 3); } else { do { for (auto& x : n) x = r.uni(-2, 2); } while (dot(n, n) < 0.05); for (int i = 0; i < 3; ++i) o[i] = mid[i] + (r.coin(0.2) ? 2.0 : 0.3) * r.uni(-1, 1) * g.L[i]; }
    double rad = r.uni(0.1, 1.2) * std::min(g.L[0], std::min(g.L[1], g.L[2])) / (r.coin() ? 1 : 4); std::string where = r.coin(0.3) ? str("map", it, ".osh") : ""; c.begin(str("map ", full ? "full " : "plane ", g.desc, " o ", o[0], ",", o[1], ",", o[2], " n ", n[0], ",", n[1], ",", n[2], " filter ", dofilter ? rad : 0, " first ", first));
    InputData in("MeshMap"); InputData lm("LinearMap"); if (!full) { lm.add("Type", std::string("SymmetryPlane")); lm.add("Origin", xyz("Origin", o)); lm.add("Normal", xyz("Normal", n)); } in.add("LinearMap", lm); if (dofilter) { InputData f("Filter"); f.add("Type", std::string(r.coin() ? "Linear" : "LINEAR")); f.add("Radius", num(rad)); in.add("Filter", f); } if (!dflt) in.add("FilterFirst", std::string(first ? "true" : "false"));
    ArborX::order_state() = 1 + (std::uint64_t)r.in(1, 1 << 30) * 7919; Plato::Geometry::MeshMapFactory<double> F; std::shared_ptr<MM> m; if (where.empty()) m = F.create(g.mesh, in); else { Omega_h::mesh_files()[where] = {g.mesh, g.sets}; in.add("Mesh", where); m = F.create(in); Omega_h::mesh_files().erase(where); } if (!c.check(m != nullptr, "map-built")) continue;
    std::vector<int> kind; std::vector<D> img; Rows R = mirror(g, full, o, n, kind, img); bool tie = false; Rows Fl; if (dofilter) { Fl = cone(g, num(rad) == "" ? 0 : rad, tie); ++filtered; } if (tie) continue; for (int v = 0; v < N; ++v) { mirrored += kind[v] == 1; outside += kind[v] == 2; lost += kind[v] == 4; inside += kind[v] == 0; }
    bool kept = true, k2 = true; D u = uni(r, N, -1, 1), got = app(*m, u, false, kept), w = dofilter && first ? R.mul(Fl.mul(u)) : R.mul(u); std::vector<char> ok(R.known); if (dofilter && !first) { w = Fl.mul(w); for (int v = 0; v < N; ++v) for (auto& e : Fl.a[v]) if (!R.known[e.first]) ok[v] = 0; }
    int bad = -1; for (int v = 0; v < N; ++v) if (ok[v] && !(std::fabs(got[v] - w[v]) <= 1e-9 * std::max(1.0, std::fabs(w[v])))) bad = v; c.check(bad < 0, "carried-value", bad < 0 ? "" : str("node ", bad, " kind ", kind[bad], " observed ", got[bad], " expected ", w[bad])); c.check(kept, "input-kept");
    // an affine field is carried exactly, inside the mesh or just outside it
    if (!dofilter) { D a = uni(r, 4, -1, 1), lf(N); for (int v = 0; v < N; ++v) { lf[v] = a[3]; for (int i = 0; i < 3; ++i) lf[v] += a[i] * g.xyz[v * 3 + i]; } D gl = app(*m, lf, false, k2); bad = -1; double want = 0; for (int v = 0; v < N; ++v) { if (kind[v] == 3) continue; double x = 0; if (kind[v] != 4) { x = a[3]; for (int i = 0; i < 3; ++i) x += a[i] * img[v][i]; } if (!(std::fabs(gl[v] - x) <= 1e-9 * std::max(1.0, std::fabs(x)))) { bad = v; want = x; } } c.check(bad < 0, "affine-field", bad < 0 ? "" : str("node ", bad, " kind ", kind[bad], " observed ", gl[bad], " expected ", want)); }
    { D one(N, 1.0), g1 = app(*m, one, false, k2); bool fine = true; for (int v = 0; v < N; ++v) { bool all = kind[v] < 3; if (dofilter && !first) for (auto& e : Fl.a[v]) all = all && kind[e.first] < 3; if (all) fine = fine && std::fabs(g1[v] - 1) <= 1e-9; } c.check(fine, "constant-kept"); }
    // the adjoint
    D y = uni(r, N, -1, 1), gt = app(*m, y, true, k2); double l = dot(got, y), q = dot(u, gt), s = 0; for (int v = 0; v < N; ++v) s += std::fabs(got[v] * y[v]) + std::fabs(u[v] * gt[v]); c.check(std::fabs(l - q) <= 1e-10 * s, "adjoint", str(l, " vs ", q)); c.check(k2, "adjoint-input-kept"); bool all = true; for (char k : R.known) all = all && k; if (all) near_(c, gt, dofilter ? (first ? Fl.mulT(R.mulT(y)) : R.mulT(Fl.mulT(y))) : R.mulT(y), "adjoint-value", 1e-9, 1.0);
    // again: nothing is left over from one application to the next
    bool k3; D again = app(*m, u, false, k3); same(c, again, got, "repeatable"); }
  c.begin(str("reach: kept ", inside, " mirrored ", mirrored, " just outside ", outside, " out of reach ", lost, " filtered ", filtered)); c.check(mirrored > 0 && inside > 0 && lost > 0, "reach"); }
SIM_GROUP(refusals) { auto& r = c.rng; for (int it = 0; it < c.n(40, 800); ++it) { Geo g = box(r, 3, 2, -1, true, 1); Plato::Geometry::MeshMapFactory<double> F; auto plane = [&](D n) { InputData lm("LinearMap"); lm.add("Type", std::string("SymmetryPlane")); lm.add("Origin", xyz("Origin", {0.1, 0.2, 0.3})); lm.add("Normal", xyz("Normal", n)); return lm; }; auto refused = [&](const char* k, InputData in) { bool t = false; try { F.create(g.mesh, in); } catch (const std::exception&) { t = true; } c.check(t, k); };
    c.begin(str("refusals ", g.desc)); { InputData in; refused("no-map", in); } { InputData in; in.add("LinearMap", plane({1, 0, 0})); in.add("LinearMap", plane({0, 1, 0})); refused("two-maps", in); } { InputData in; in.add("LinearMap", plane({0, 0, 0})); refused("zero-normal", in); } { InputData in; InputData lm; lm.add("Type", std::string("Rotation")); in.add("LinearMap", lm); refused("unknown-map", in); } for (double rad : {0.0, -r.uni(0.1, 2)}) { InputData in; in.add("LinearMap", plane({1, 2, 0})); InputData f; f.add("Type", std::string("Linear")); f.add("Radius", num(rad)); in.add("Filter", f); refused("filter-radius", in); } } }
