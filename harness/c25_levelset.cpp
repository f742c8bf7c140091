// C25: level sets.  Volumes, areas and rates of the smoothed interface, one step of motion and of redistancing against an
// independent scheme and exact plane fronts, and the burning geometries built on them over whole histories.
#include "sim.hpp"
#include <fstream>
#include <unistd.h>
#include <limits.h>
#include "HamiltonJacobi.hpp"
#if VDIM == 3
#include "Plato_LevelSetOnExternalMesh.hpp"
#include "Plato_LevelSetCylinderInBox.hpp"
#include "Plato_AlgebraicRocketModel.hpp"
#endif
using namespace sim; static const int d = VDIM;
struct Quiet { std::streambuf* b; std::ostringstream s; Quiet() : b(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(b); } };
using PF = ProblemFields<VDIM>;
static double Hs(double x, double e) { return x < -e ? 0 : x > e ? 1 : 0.5 * (1 + x / e + std::sin(M_PI * x / e) / M_PI); }
static double De(double x, double e) { return x < -e || x > e ? 0 : 0.5 / e * (1 + std::cos(M_PI * x / e)); }
static void put(PF& f, const D& p) { for (size_t i = 0; i < p.size(); ++i) { f.mLevelSet(i, f.mCurrentState) = p[i]; } }
static D got(const PF& f) { D p; for (size_t i = 0; i < f.mLevelSet.extent(0); ++i) p.push_back(f.mLevelSet(i, f.mCurrentState)); return p; }
// one upwind Hamiltonian per node: each cell gives its rate to the nodes its characteristics leave through
struct Ref { const Geo& g; D es, ns; bool el; double eps;
  double espeed(int e, const Cell& q) const { if (el) return es[e]; return nodeAvg(q, ns); }
  static void share(const Cell& q, const D& p, double speed, D& w, double& rate) { int n = q.v.size(); D G(d, 0.0), k(n); for (int a = 0; a < n; ++a) for (int i = 0; i < d; ++i) G[i] += q.grad[a][i] * p[q.v[a]]; double m = std::sqrt(dot(G, G)), pos = 0, neg = 0, nc = 0; for (int a = 0; a < n; ++a) { double s = 0; for (int i = 0; i < d; ++i) s += G[i] / m * q.grad[a][i]; k[a] = q.vol * speed * s; if (k[a] < 0) { neg += k[a]; nc += k[a] * p[q.v[a]]; } else pos += k[a]; } rate = q.vol * speed * m; w.assign(n, 0.0); for (int a = 0; a < n; ++a) if (k[a] > 0) w[a] = k[a] / pos * (nc - neg * p[q.v[a]]) / rate; }
  D hamiltonian(const D& p) const { int N = g.nn(); D R(N, 0.0), W(N, 0.0), H(N, 0.0); for (int e = 0; e < g.ne(); ++e) { auto q = cell(g, e); D w; double rt, s = 0; share(q, p, espeed(e, q), w, rt); for (double x : w) if (x > 0) s += x; for (size_t a = 0; a < w.size(); ++a) if (w[a] > 0) { R[q.v[a]] += w[a] / s * rt; W[q.v[a]] += w[a] / s * q.vol; } } for (int i = 0; i < N; ++i) if (W[i] > 0) H[i] = R[i] / W[i]; return H; }
  D eikonal(const D& p, bool arrival) const { int N = g.nn(); D R(N, 0.0), W(N, 0.0), H(N, 0.0); for (int e = 0; e < g.ne(); ++e) { auto q = cell(g, e); for (size_t a = 0; a < q.v.size(); ++a) { int n = q.v[a]; double sg = p[n] / std::sqrt(p[n] * p[n] + eps * eps), sp = arrival ? sg * (el ? es[e] : ns[n]) : sg; D w; double rt; share(q, p, sp, w, rt); if (w[a] > 0) { R[n] += w[a] * rt; W[n] += w[a] * q.vol; } } } for (int i = 0; i < N; ++i) if (W[i] > 0) H[i] = R[i] / W[i]; return H; } };
static PF fields(Rng& r, Geo& g, Ref& R, bool el, int steps) { PF f; f.mNumTimeSteps = steps; declare_fields(g.mesh, f, el); f.mCurrentState = r.in(0, 1); R.el = el; R.es.clear(); R.ns.clear(); if (el) for (int e = 0; e < g.ne(); ++e) R.es.push_back(f.mElementSpeed(e) = r.uni(0.1, 2)); else for (int i = 0; i < g.nn(); ++i) R.ns.push_back(f.mNodalSpeed(i) = r.uni(0.1, 2)); return f; }
SIM_GROUP(measures) { auto& r = c.rng; for (int it = 0; it < c.n(150, 4000); ++it) { Geo g = box(r, d, d == 2 ? 4 : 3, -1, true, 1); Ref R{g}; bool el = r.coin(); PF f = fields(r, g, R, el, 1); D p = uni(r, g.nn(), -1, 1); put(f, p); double eps = r.uni(0.05, 1.5), lv = r.coin() ? 0.0 : r.uni(-0.5, 0.5); c.begin(str("measures ", g.desc, " eps ", eps, " level ", lv, " el ", el)); double V = 0, A = 0, Q = 0, T = 0, h = 1e300; for (int e = 0; e < g.ne(); ++e) { auto q = cell(g, e); double a = nodeAvg(q, p) - lv; V += q.vol * Hs(a, eps); A += q.vol * De(a, eps); Q += q.vol * R.espeed(e, q) * De(a, eps); T += q.vol; for (auto& x : q.grad) h = std::min(h, 1 / std::sqrt(dot(x, x))); }
    auto eq = [&](double a, double b, const char* k) { c.check(std::fabs(a - b) <= 1e-11 * std::max(1.0, std::fabs(b)), k, str(a, " expected ", b)); }; Quiet q; bool z = lv == 0 && r.coin(); eq(z ? level_set_volume(g.mesh, f, eps) : level_set_volume(g.mesh, f, eps, lv), V, "volume"); eq(z ? level_set_area(g.mesh, f, eps) : level_set_area(g.mesh, f, eps, lv), A, "area"); eq(z ? level_set_volume_rate_of_change(g.mesh, f, eps) : level_set_volume_rate_of_change(g.mesh, f, eps, lv), Q, "rate"); eq(mesh_minimum_length_scale<VDIM>(g.mesh), h, "length-scale"); same(c, got(f), p, "measures-leave-level-set");
    bool neg = false, pos = false; for (double x : p) { neg = neg || x < 0; pos = pos || x > 0; } c.check(domain_contains_interface(g.mesh, f) == (neg && pos), "contains-interface"); if (r.coin(0.3)) { D o(p); for (auto& x : o) x = r.coin(0.3) ? 0.0 : std::fabs(x) * (it % 2 ? 1 : -1); put(f, o); c.check(!domain_contains_interface(g.mesh, f), "contains-no-interface"); put(f, p); }
    double off = r.uni(-1, 1); offset_level_set(g.mesh, f, off); D po(p); for (auto& x : po) x += off; same(c, got(f), po, "offset"); { double a = r.uni(-1, 1), b = r.uni(0.1, 2), mu = r.coin() ? 1.0 : r.uni(-2, 2); auto fn = [=](double x, double y, double zz) { return a * x + b * y - 0.5 * zz + 0.3; }; initialize_level_set(g.mesh, f, fn, mu); D w; for (int i = 0; i < g.nn(); ++i) w.push_back(fn(g.xyz[i * d], g.xyz[i * d + 1], d == 3 ? g.xyz[i * d + 2] : 0) * mu); near_(c, got(f), w, "initialize", 1e-14, 1.0);
      auto sp = [=](double x, double y, double zz) { return 0.2 + b * x * x + y * y + 0.3 * zz * zz; }; initialize_interface_speed(g.mesh, f, sp); D want, have; double mx = 0; if (el) for (int e = 0; e < g.ne(); ++e) { auto q2 = cell(g, e); D x(3, 0.0); for (int v : q2.v) for (int i = 0; i < d; ++i) x[i] += g.xyz[v * d + i] / (d + 1); want.push_back(sp(x[0], x[1], x[2])); have.push_back(f.mElementSpeed(e)); } else for (int i = 0; i < g.nn(); ++i) { want.push_back(sp(g.xyz[i * d], g.xyz[i * d + 1], d == 3 ? g.xyz[i * d + 2] : 0)); have.push_back(f.mNodalSpeed(i)); } near_(c, have, want, "speed", 1e-13); for (double x : want) mx = std::max(mx, x); eq(normalize_interface_speed(g.mesh, f), mx, "speed-norm"); have.clear(); for (size_t i = 0; i < want.size(); ++i) { want[i] /= mx; have.push_back(el ? f.mElementSpeed(i) : f.mNodalSpeed(i)); } near_(c, have, want, "normalized-speed", 1e-12);
      double k = r.uni(0.1, 3); initialize_constant_speed(g.mesh, f, k); bool ok = true; for (size_t i = 0; i < want.size(); ++i) ok = ok && (el ? f.mElementSpeed(i) : f.mNodalSpeed(i)) == k; c.check(ok, "constant-speed"); }
    { double x = r.uni(-2, 2) * eps; c.check(std::fabs(Heaviside(x, eps) - Hs(x, eps)) < 1e-13 && std::fabs(Delta(x, eps) - De(x, eps)) < 1e-12 / eps, "smoothed-step"); } } }
SIM_GROUP(steps) { auto& r = c.rng; for (int it = 0; it < c.n(150, 4000); ++it) { Geo g = box(r, d, d == 2 ? 4 : 2, -1, true, 1); Ref R{g}; R.eps = r.uni(0.05, 0.6); bool el = r.coin(); PF f = fields(r, g, R, el, 1); Quiet q; double dt = r.uni(0.01, 0.5); bool plane = r.coin(0.4); D p = uni(r, g.nn(), -1, 1), nrm(d); double m = r.coin() ? 1.0 : r.uni(0.3, 3); if (plane) { do { for (auto& x : nrm) x = r.uni(-1, 1); } while (dot(nrm, nrm) < 0.05); double L = std::sqrt(dot(nrm, nrm)); for (auto& x : nrm) x *= m / L; for (int i = 0; i < g.nn(); ++i) { p[i] = -0.4; for (int k = 0; k < d; ++k) p[i] += nrm[k] * g.xyz[i * d + k]; } if (r.coin()) { double s = r.uni(0.1, 2); initialize_constant_speed(g.mesh, f, s); for (auto& x : R.es) x = s; for (auto& x : R.ns) x = s; } }
    c.begin(str("steps ", plane ? "plane " : "random ", g.desc, " dt ", dt, " el ", el, " p0 ", p[0])); put(f, p); int cur = f.mCurrentState; D H = R.hamiltonian(p), w(p); for (size_t i = 0; i < w.size(); ++i) w[i] -= dt * H[i]; evolve_level_set(g.mesh, f, R.eps, dt); c.check(f.mCurrentState == 1 - cur, "evolve-flips-state"); near_(c, got(f), w, "evolve", 1e-9, 1.0); { D old; for (size_t i = 0; i < p.size(); ++i) old.push_back(f.mLevelSet(i, cur)); same(c, old, p, "evolve-keeps-old-state"); }
    if (plane) { double lo = 1e300, hi = 0; for (double x : R.es) { lo = std::min(lo, x); hi = std::max(hi, x); } for (double x : R.ns) { lo = std::min(lo, x); hi = std::max(hi, x); } D n = got(f); int moved = 0; for (size_t i = 0; i < n.size(); ++i) { double s = (p[i] - n[i]) / dt; if (s == 0) continue; ++moved; c.check(s >= lo * m * (1 - 1e-9) && s <= hi * m * (1 + 1e-9), "front-speed", str(s, " outside ", lo * m, " .. ", hi * m)); } c.check(moved > 0, "front-moves"); }
    bool arr = r.coin(); put(f, p); cur = f.mCurrentState; H = R.eikonal(p, arr); double s2 = 0, cnt = 0; w = p; for (size_t i = 0; i < w.size(); ++i) { double sg = p[i] / std::sqrt(p[i] * p[i] + R.eps * R.eps), h = H[i] - sg; w[i] -= dt * h; if (arr || std::fabs(w[i]) < R.eps) { s2 += h * h; cnt += 1; } } double res = assemble_and_update_Eikonal(g.mesh, f, R.eps, dt, arr); near_(c, got(f), w, "redistance", 1e-9, 1.0); if (cnt > 0) { double e = std::sqrt(s2 / cnt); c.check(std::fabs(res - e) <= 1e-8 * std::max(1.0, e), "redistance-residual", str(res, " expected ", e)); }
    // a distance function has its own sign as Hamiltonian wherever characteristics arrive
    if (plane && m == 1 && !arr) { D n = got(f); for (size_t i = 0; i < n.size(); ++i) if (H[i] != 0) c.check(std::fabs(n[i] - p[i]) <= 1e-9, "distance-is-kept", str(n[i], " was ", p[i])); }
    int mi = r.in(1, 12); double tol = r.coin() ? 0.01 : r.uni(0.05, 0.5), dtau = 0.1; put(f, p); bool dflt = r.coin(0.3); if (dflt) { mi = 10; tol = 0.01; } bool neg = false, pos = false; for (double x : p) { neg = neg || x < 0; pos = pos || x > 0; } w = p; double last = 0; bool tie = false; if (neg && pos) for (int k = 0; k < mi; ++k) { H = R.eikonal(w, false); double s = 0, n = 0; for (size_t i = 0; i < w.size(); ++i) { double sg = w[i] / std::sqrt(w[i] * w[i] + R.eps * R.eps), h = H[i] - sg; w[i] -= dtau * h; if (std::fabs(w[i]) < R.eps) { s += h * h; n += 1; } } last = std::sqrt(s / n); if (std::fabs(last - tol) < 1e-6) tie = true; if (last < tol) break; } if (dflt) reinitialize_level_set(g.mesh, f, 0.0, R.eps, dtau); else reinitialize_level_set(g.mesh, f, 0.0, R.eps, dtau, mi, tol); if (!tie) near_(c, got(f), w, "reinitialize", 1e-6, 1.0); } }
#if VDIM == 3
struct Dir { char old[4096]; std::string dir; Dir() { char t[] = "/tmp/c25XXXXXX"; if (!getcwd(old, sizeof old) || !mkdtemp(t) || chdir(t)) std::abort(); dir = t; } ~Dir() { for (auto n : {"conn", "xyz", "phi", "rate", "bad"}) unlink(n); if (chdir(old)) std::abort(); rmdir(dir.c_str()); } };
static void dump(const char* n, const D& v, int per) { std::ofstream o(n); o.precision(17); for (size_t i = 0; i < v.size(); ++i) o << v[i] << ((i + 1) % per ? " " : "\n"); }
// the history written: one record per state, the first at time zero, each with the field of its time
static void written(Ctx& c, const std::vector<D>& hist, const std::vector<double>& times, const std::string& k) { auto& w = Omega_h::written(); if (!c.check(w.size() == hist.size(), k + "-records", str(w.size(), " for ", hist.size(), " states"))) return; for (size_t i = 0; i < w.size(); ++i) { c.check(std::fabs(w[i].time - times[i]) <= 1e-12, k + "-record-time", str(w[i].time, " expected ", times[i])); auto it = w[i].fields.find({0, "LevelSet"}); if (c.check(it != w[i].fields.end(), k + "-record-field")) near_(c, it->second, hist[i], k + "-record-values", 1e-9, 1.0); } }
SIM_GROUP(external) { auto& r = c.rng; for (int it = 0; it < c.n(25, 600); ++it) { Geo g = box(r, d, 2, -1, true, 1); int N = r.in(1, 5); c.begin(str("external ", g.desc, " steps ", N)); Dir dir; Quiet q; D ev(g.ev.begin(), g.ev.end()), p = uni(r, g.nn(), -1, 1), es = uni(r, g.ne(), 0.1, 2); dump("conn", ev, d + 1); dump("xyz", g.xyz, d); dump("phi", p, 1); dump("rate", es, 1); Plato::ProblemParams pr; pr.mNumTimeSteps = N; pr.mPropellantDensity = r.uni(0.5, 3); Plato::LevelSetOnExternalMesh L("xyz", "conn"); L.initialize(pr); if (r.coin()) { L.readNodalLevelSet("phi"); L.readElementBurnRate("rate"); } else { L.readElementBurnRate("rate"); L.readNodalLevelSet("phi"); }
    PF f; f.mNumTimeSteps = N; declare_fields(g.mesh, f); put(f, p); for (int e = 0; e < g.ne(); ++e) f.mElementSpeed(e) = es[e]; double h = mesh_minimum_length_scale<3>(g.mesh), eps = 1.5 * h, dtau = 0.2 * h; reinitialize_level_set(g.mesh, f, 0.0, eps, dtau); D first = got(f); std::vector<D> hist{first}; std::vector<double> ts{0.0}; double t = 0; auto meas = [&](const std::string& k) { double a = level_set_area(g.mesh, f, eps), b = pr.mPropellantDensity * level_set_volume_rate_of_change(g.mesh, f, eps); c.check(std::fabs(L.area() - a) <= 1e-9 * std::max(1.0, a), k + "-area", str(L.area(), " expected ", a)); c.check(std::fabs(L.referenceMassProductionRate() - b) <= 1e-9 * std::max(1.0, b), k + "-mass-rate"); }; meas("external-start");
    for (int i = 0; i < N; ++i) { double dt = r.uni(0.01, 0.1), mu = r.uni(0.2, 2); L.evolveGeometry(dt, mu); evolve_level_set(g.mesh, f, eps, mu * dt); t += dt; reinitialize_level_set(g.mesh, f, t, eps, dtau); hist.push_back(got(f)); ts.push_back(t); meas("external-step"); } Omega_h::written().clear(); L.output(false); c.check(Omega_h::written().empty(), "external-no-output"); L.output(true); if (Omega_h::written().size() && Omega_h::written()[0].fields.count({0, "LevelSet"})) { D z = Omega_h::written()[0].fields[{0, "LevelSet"}]; double e = 0; for (size_t i = 0; i < z.size() && i < p.size(); ++i) e = std::max(e, std::fabs(z[i] - p[i])); if (e < 1e-12) hist[0] = p; } written(c, hist, ts, "external");
    auto bad = [&](const char* what, std::function<void(Plato::LevelSetOnExternalMesh&)> fn) { c.begin(str("refuse ", what, " ", it)); c.rejects([&] { Plato::LevelSetOnExternalMesh M("xyz", "conn"); fn(M); }, std::string("refuses-") + what); }; D sh(p.begin(), p.end() - 1), lg(p); lg.push_back(1); bad("missing-level-set", [&](Plato::LevelSetOnExternalMesh& M) { M.initialize(pr); M.readNodalLevelSet("none"); }); bad("short-level-set", [&](Plato::LevelSetOnExternalMesh& M) { M.initialize(pr); dump("bad", sh, 1); M.readNodalLevelSet("bad"); }); bad("long-level-set", [&](Plato::LevelSetOnExternalMesh& M) { M.initialize(pr); dump("bad", lg, 1); M.readNodalLevelSet("bad"); }); bad("short-burn-rate", [&](Plato::LevelSetOnExternalMesh& M) { M.initialize(pr); D e2(es.begin(), es.end() - 1); dump("bad", e2, 1); M.readElementBurnRate("bad"); });
    bad("missing-mesh", [&](Plato::LevelSetOnExternalMesh& M) { unlink("xyz"); M.initialize(pr); }); bad("missing-connectivity", [&](Plato::LevelSetOnExternalMesh& M) { dump("xyz", g.xyz, d); unlink("conn"); M.initialize(pr); }); bad("cut-coordinates", [&](Plato::LevelSetOnExternalMesh& M) { dump("conn", ev, d + 1); D x(g.xyz.begin(), g.xyz.end() - 1); dump("xyz", x, d); M.initialize(pr); }); } }
SIM_GROUP(cylinder) { auto& r = c.rng; for (int it = 0; it < c.n(20, 400); ++it) { Omega_h::box_cap() = r.in(2, 4); int N = r.in(1, 4); double R = r.uni(0.5, 1), len = r.uni(0.5, 1.5); Plato::ProblemParams pr; pr.mNumTimeSteps = N; pr.mPropellantDensity = r.uni(0.5, 3); auto gen = [&] { pr.mGeometry = {R, len, r.uni(0.2, 0.9) * R}; pr.mRefBurnRate = {r.uni(0.1, 1), r.coin() ? 0.0 : r.uni(0, 0.5)}; }; gen(); c.begin(str("cylinder cap ", Omega_h::box_cap(), " R ", R, " length ", len, " steps ", N)); Quiet q; Plato::LevelSetCylinderInBox L; Omega_h::Mesh mesh = Omega_h::build_box(nullptr, OMEGA_H_SIMPLEX, 2 * R, 2 * R, len, 64, 64, 64);
    int rounds = r.in(1, 3); for (int ro = 0; ro < rounds; ++ro) { if (ro) gen(); if (ro && r.coin()) L.updateGeometry(pr); else L.initialize(pr); PF f; f.mNumTimeSteps = N; declare_fields(mesh, f); initialize_level_set(mesh, f, [&](double x, double y, double) { return std::sqrt((x - R) * (x - R) + (y - R) * (y - R)) - pr.mGeometry[2]; }); initialize_interface_speed(mesh, f, [&](double x, double y, double) { return pr.mRefBurnRate[0] + std::sqrt((x - R) * (x - R) + (y - R) * (y - R)) * pr.mRefBurnRate[1]; }); double h = mesh_minimum_length_scale<3>(mesh), eps = 1.5 * h, dtau = 0.2 * h; reinitialize_level_set(mesh, f, 0.0, eps, dtau); std::vector<D> hist{got(f)}; std::vector<double> ts{0.0}; double t = 0; auto meas = [&](const std::string& k) { double a = level_set_area(mesh, f, eps), b = pr.mPropellantDensity * level_set_volume_rate_of_change(mesh, f, eps); c.check(std::fabs(L.area() - a) <= 1e-7 * std::max(1.0, a), k + "-area", str(L.area(), " expected ", a)); c.check(std::fabs(L.referenceMassProductionRate() - b) <= 1e-7 * std::max(1.0, b), k + "-mass-rate"); }; meas("cylinder-start");
      for (int i = 0; i < N; ++i) { double dt = r.uni(0.01, 0.1), mu = r.uni(0.2, 2); L.evolveGeometry(dt, mu); evolve_level_set(mesh, f, eps, mu * dt); t += dt; reinitialize_level_set(mesh, f, t, eps, dtau); hist.push_back(got(f)); ts.push_back(t); meas("cylinder-step"); } Omega_h::written().clear(); L.output(true); written(c, hist, ts, "cylinder"); } } Omega_h::box_cap() = 0; Omega_h::written().clear(); }
#endif
