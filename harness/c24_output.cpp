// C24: what a run writes.  Every step, every node and every dof of the solution reaches the output under its own name, with the
// element fields of that step; the driver builds the problem its input names and writes that problem's solution.
#include "refsolve.hpp"
#if VDIM == 2 // the driver brings in every problem; in 3D the output alone
#include "PlatoDriver.hpp"
#else
#include "AnalyzeOutput.hpp"
#endif
using namespace refsolve;
#if VDIM == 2
static MPI_Comm world = MPI_COMM_WORLD; static Plato::Comm::Machine& machine() { static Plato::Comm::Machine m(world); return m; }
#endif
struct Quiet { std::streambuf* b; std::ostringstream s; Quiet() : b(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(b); } };
struct Part { std::string name; int off, n; };
struct Phy { std::string physics, pde; int nd; std::vector<Part> parts; bool rates; };
static std::vector<Phy> all() { Part u{"Displacements", 0, d}; return {
  {"Mechanical", "Elliptic", d, {u}, false}, {"Mechanical", "Hyperbolic", d, {u}, true}, {"Thermal", "Elliptic", 1, {{"Temperature", 0, 1}}, false}, {"Thermal", "Parabolic", 1, {{"Temperature", 0, 1}}, false},
  {"Thermomechanical", "Elliptic", d + 1, {u, {"Temperature", d, 1}}, false}, {"Thermomechanical", "Parabolic", d + 1, {u, {"Temperature", d, 1}}, false}, {"Electromechanical", "Elliptic", d + 1, {u, {"Potential", d, 1}}, false},
  {"Stabilized Mechanical", "Elliptic", d + 1, {u, {"Pressure", d, 1}}, false}, {"Stabilized Thermomechanical", "Elliptic", d + 2, {u, {"Pressure", d, 1}, {"Temperature", d + 1, 1}}, false},
  {"Plasticity", "Elliptic", d + 1, {u, {"Pressure", d, 1}}, false}, {"Thermoplasticity", "Elliptic", d + 2, {u, {"Temperature", d, 1}, {"Pressure", d + 1, 1}}, false}}; }
using MV = Plato::ScalarMultiVector;
static D part(const MV& s, int step, int nn, int nd, int off, int n) { D v; for (int i = 0; i < nn; ++i) for (int k = 0; k < n; ++k) v.push_back(s(step, i * nd + off + k)); return v; }
// everything recorded against the solution and the saved element fields
static bool judge(Ctx& c, const std::vector<Omega_h::WriteRec>& w, const std::string& path, const Phy& p, const Geo& g, const Plato::Solution& S, const Plato::DataMap& dm, const D* z) { const std::string k = p.physics + "-" + p.pde; int N = S.State.extent(0), nn = g.nn(); 
  if (!c.check((int)w.size() == N, k + "-every-step-written", str(w.size(), " records for ", N, " steps"))) return false;
  for (int i = 0; i < N; ++i) { auto& R = w[i]; c.check(R.path == path, k + "-path", R.path); c.check(i == 0 || R.time > w[i - 1].time, k + "-times-increase", str(R.time));
    auto field = [&](int ent, const std::string& name, int nc, const D& want) { auto it = R.fields.find({ent, name}); if (!c.check(it != R.fields.end(), k + "-" + name + "-written", str("step ", i))) return; c.check(R.ncomps.at({ent, name}) == nc, k + "-" + name + "-components"); same(c, it->second, want, k + "-" + name + "-values"); };
    for (auto& q : p.parts) field(0, q.name, q.n, part(S.State, i, nn, p.nd, q.off, q.n)); if (p.rates) { field(0, "Velocity", d, part(S.StateDot, i, nn, d, 0, d)); field(0, "Acceleration", d, part(S.StateDotDot, i, nn, d, 0, d)); }
    if (z) field(0, "Control", 1, *z);
    if (i < (int)dm.stateDataMaps.size()) { auto& s = dm.stateDataMaps[i]; for (auto& q : s.scalarVectors) if ((int)q.second.extent(0) == g.ne()) { D v; for (int e = 0; e < g.ne(); ++e) v.push_back(q.second(e)); field(d, q.first, 1, v); }
      for (auto& q : s.scalarMultiVectors) if ((int)q.second.extent(0) == g.ne()) { D v; for (int e = 0; e < g.ne(); ++e) for (size_t j = 0; j < q.second.extent(1); ++j) v.push_back(q.second(e, j)); field(d, q.first, q.second.extent(1), v); } } }
  return true; }
static MV rnd(Rng& r, int a, int b) { MV v("v", a, b); for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) v(i, j) = r.uni(-2, 2); return v; }
SIM_GROUP(fields) { auto& r = c.rng; for (int it = 0; it < c.n(220, 6000); ++it) { Geo g = box(r, d, 3, -1, true, 1); auto ps = all(); Phy p = ps[it % ps.size()]; int N = r.in(1, 5), n = g.nn() * p.nd; c.begin(str("fields ", p.physics, " ", p.pde, " steps ", N, " ", g.desc)); MV U = rnd(r, N, n); Plato::Solution S(U); if (p.rates || (p.physics == "Mechanical" && r.coin(0.2))) { p.rates = true; S = Plato::Solution(U, rnd(r, N, n), rnd(r, N, n)); }
    Plato::DataMap dm; if (r.coin(0.8)) { int a = r.in(0, 2), b = r.in(0, 2); std::vector<int> ex{r.in(1, 2), r.in(3, 6)}; for (int i = 0; i < N; ++i) { for (int q = 0; q < a; ++q) { Plato::ScalarVector v("v", g.ne()); for (int e = 0; e < g.ne(); ++e) v(e) = r.uni(-1, 1); dm.scalarVectors[str("vec", q)] = v; } for (int q = 0; q < b; ++q) dm.scalarMultiVectors[str("mul", q)] = rnd(r, g.ne(), ex[q]); dm.scalarVectors["other"] = Plato::ScalarVector("o", g.ne() + 1); dm.saveState(); } }
    PL in; in.sublist("Plato Problem").set("Physics", p.physics); in.sublist("Plato Problem").set("PDE Constraint", p.pde); if (d != 3 || r.coin()) in.set("Spatial Dimension", d); std::string path = str("out", r.in(0, 99)); Omega_h::written().clear(); Quiet q; D u0 = get(U); 
    if (r.coin()) { D z = uni(r, g.nn(), 0, 1); V1 Z = mk1(z); Plato::write(in, path, S, Z, dm, g.mesh); judge(c, Omega_h::written(), path, p, g, S, dm, &z); same(c, get(Z), z, "control-untouched"); } else { Plato::output<VDIM>(in, path, S, dm, g.mesh); judge(c, Omega_h::written(), path, p, g, S, dm, nullptr); } same(c, get(U), u0, "solution-untouched"); for (auto& w : Omega_h::written()) c.check(!w.fields.count({d, "other"}), "only-element-fields"); } }

#if VDIM == 2
// a valid input for every physics
static Pen pen1(Rng& r) { Pen q; q.type = "SIMP"; q.p = r.uni(1, 3); q.mn = 1e-4; return q; }
struct Clean { ~Clean() { Omega_h::mesh_files().clear(); Omega_h::read_sets() = Omega_h::MeshSets(); } }; // before Kokkos ends
struct Input { Phy p; Geo g; PL q; };
static Input input(Rng& r, const Phy& p) { bool vms = p.physics.find("Stabilized") == 0, pl = p.physics.find("lasticity") != std::string::npos, th = p.physics.find("hermo") != std::string::npos || p.physics.find("Thermo") == 0; int nb = 1; Geo g = box(r, d, 2, -1, true, nb); PL q; std::vector<Load> ls; std::vector<Body> bs; std::map<int, double> bc;
  if (!vms && !pl) { Model m = p.physics == "Mechanical" ? phys::mechanics(r, d, nb) : p.physics == "Thermal" ? phys::thermal(r, d, nb, 0) : p.physics == "Thermomechanical" ? phys::thermomechanics(r, d, nb, 0) : phys::electromechanics(r, d, nb); if (p.pde == "Parabolic") heatMass(r, m, 0); m.put(q, g); genAllLoads(r, g, q, m, ls, bs, true); q.sublist(p.pde).sublist("Penalty Function") = pen(r).list(); }
  else { PL& mm = q.sublist("Material Models"); PL& m = mm.sublist("mat0"); PL& l = m.sublist(th ? "Isotropic Linear Thermoelastic" : "Isotropic Linear Elastic"); l.set("Youngs Modulus", r.uni(1, 3)); l.set("Poissons Ratio", r.uni(0, 0.45)); l.set("Pressure Scaling", 1.0); if (th) { l.set("Thermal Expansion Coefficient", r.uni(0.01, 0.3)); l.set("Thermal Conductivity Coefficient", r.uni(0.5, 2)); l.set("Reference Temperature", r.uni(-1, 1)); }
    if (pl) { PL& j = m.sublist("Plasticity Model").sublist("J2 Plasticity"); j.set("Hardening Modulus Isotropic", r.uni(0.1, 1)); j.set("Hardening Modulus Kinematic", r.uni(0.1, 1)); j.set("Initial Yield Stress", r.uni(0.05, 0.5)); j.set("Elastic Properties Penalty Exponent", 3.0); j.set("Elastic Properties Minimum Ersatz", 1e-6); j.set("Plastic Properties Penalty Exponent", 2.5); j.set("Plastic Properties Minimum Ersatz", 1e-9); }
    q.sublist("Spatial Model") = spatial(g, {"mat0"}); q.sublist("Elliptic").sublist("Penalty Function") = pen1(r).list(); q.sublist("State Gradient Projection").sublist("Penalty Function") = pen1(r).list(); PL nat; genLoads(r, g, nat, "Mechanical Natural Boundary Conditions", 0, d, -1, false, ls); if (pl) q.sublist("Natural Boundary Conditions") = nat; else if (ls.size()) q.sublist("Mechanical Natural Boundary Conditions") = nat.sublist("Mechanical Natural Boundary Conditions"); }
  q.set("Physics", p.physics); q.set("PDE Constraint", p.pde); genBcs(r, g, q, p.nd, bc, false, nullptr, p.pde == "Hyperbolic" ? "Displacement Boundary Conditions" : "Essential Boundary Conditions");
  if (p.pde == "Hyperbolic") { PL& t = q.sublist("Time Integration"); t.set("Number Time Steps", r.in(2, 4)); t.set("Time Step", r.uni(0.2, 1)); t.set("Newmark Gamma", 0.5); t.set("Newmark Beta", 0.25); } else if (p.pde == "Parabolic") { PL& t = q.sublist("Time Integration"); t.set("Number Time Steps", r.in(2, 4)); t.set("Time Step", r.uni(0.2, 1)); }
  else if (vms) { PL& t = q.sublist("Time Stepping"); t.set("Number Time Steps", r.in(2, 3)); t.set("Time Step", 1.0); } else if (pl) { PL& t = q.sublist("Time Stepping"); t.set("Initial Num. Pseudo Time Steps", r.in(2, 3)); t.set("Maximum Num. Pseudo Time Steps", 16); PL& n = q.sublist("Newton-Raphson"); n.set("Stopping Tolerance", 1e-10); n.set("Maximum Number Iterations", 25); }
  return {p, g, q}; }
// the problem the input names, built here
using AP = std::shared_ptr<Plato::AbstractProblem>;
template <class P> static AP mke(Input& i) { PL p(i.q); auto o = std::make_shared<P>(i.g.mesh, i.g.sets, p, machine()); o->readEssentialBoundaryConditions(p); return o; }
template <class P> static AP mkt(Input& i) { PL p(i.q); return std::make_shared<P>(i.g.mesh, i.g.sets, p, machine()); }
static AP direct(Input& i) { const std::string& f = i.p.physics; const std::string& e = i.p.pde; using namespace Plato; if (f == "Mechanical") return e == "Elliptic" ? mke<Elliptic::Problem<Mechanics<2>>>(i) : mkt<HyperbolicProblem<Hyperbolic::Mechanics<2>>>(i); if (f == "Thermal") return e == "Elliptic" ? mke<Elliptic::Problem<Thermal<2>>>(i) : mkt<Parabolic::Problem<Thermal<2>>>(i); if (f == "Thermomechanical") return e == "Elliptic" ? mke<Elliptic::Problem<Thermomechanics<2>>>(i) : mkt<Parabolic::Problem<Thermomechanics<2>>>(i);
  if (f == "Electromechanical") return mke<Elliptic::Problem<Electromechanics<2>>>(i); if (f == "Stabilized Mechanical") return mke<EllipticVMSProblem<StabilizedMechanics<2>>>(i); if (f == "Stabilized Thermomechanical") return mke<EllipticVMSProblem<StabilizedThermomechanics<2>>>(i); if (f == "Plasticity") return mke<PlasticityProblem<InfinitesimalStrainPlasticity<2>>>(i); return mke<PlasticityProblem<InfinitesimalStrainThermoPlasticity<2>>>(i); }
SIM_GROUP(driver) { Clean clean; auto& r = c.rng; int moved = 0, ran = 0; auto ps = all(); for (int it = 0; it < c.n(66, 1500); ++it) { Input in = input(r, ps[it % ps.size()]); const std::string k = in.p.physics + "-" + in.p.pde; c.begin(str("driver ", k, " ", in.g.desc)); Quiet quiet; PL top; top.sublist("Plato Problem") = in.q; top.set("Spatial Dimension", 2); std::string path = str("viz", it), mesh = str("m", it, ".osh"); top.set("Output Viz", path); top.set("Input Mesh", mesh); top.set("Input Config", std::string("x")); 
    auto P = direct(in); V1 Z = mk1(D(in.g.nn(), 1.0)); auto S = P->solution(Z); auto dm = P->getDataMap(); bool fin = true; for (size_t i = 0; i < S.State.extent(0); ++i) for (size_t j = 0; j < S.State.extent(1); ++j) fin = fin && std::isfinite(S.State(i, j)); if (!fin) continue; 
    Omega_h::mesh_files().clear(); Omega_h::mesh_files()[mesh] = {in.g.mesh, in.g.sets}; Omega_h::written().clear(); Omega_h::Library lib; c.accepts([&] { Plato::driver(&lib, top, machine()); }, k + "-runs"); judge(c, Omega_h::written(), path, in.p, in.g, S, dm, nullptr); double a = 0; for (size_t i = 0; i < S.State.extent(0); ++i) for (size_t j = 0; j < S.State.extent(1); ++j) a = std::max(a, std::fabs(S.State(i, j))); moved += a > 0; ++ran; } c.begin("driver at least half move"); c.check(2 * moved >= ran, "driver-runs-move", str(moved, " of ", ran)); }
SIM_GROUP(rejections) { Clean clean; auto& r = c.rng; auto ps = all(); for (int it = 0; it < c.n(11, 110); ++it) { Input in = input(r, ps[it % ps.size()]); const std::string k = in.p.physics + "-" + in.p.pde; Quiet quiet; PL good; good.sublist("Plato Problem") = in.q; good.set("Spatial Dimension", 2); good.set("Output Viz", std::string("v")); good.set("Input Mesh", std::string("m")); Omega_h::mesh_files().clear(); Omega_h::mesh_files()["m"] = {in.g.mesh, in.g.sets}; Omega_h::Library lib;
    auto bad = [&](const std::string& w, std::function<void(PL&)> f) { c.begin(str(w, " ", k)); PL p(good); f(p); c.rejects([&] { Plato::driver(&lib, p, machine()); }, "refuses-" + w); }; c.begin("valid " + k); c.accepts([&] { PL p(good); Plato::driver(&lib, p, machine()); }, "accepts-valid");
    bad("unknown-physics", [&](PL& p) { p.sublist("Plato Problem").set("Physics", std::string("Magnetic")); }); bad("unsupported-physics", [&](PL& p) { p.sublist("Plato Problem").set("Physics", std::string("StructuralDynamics")); }); bad("unknown-pde", [&](PL& p) { p.sublist("Plato Problem").set("PDE Constraint", std::string("Eliptic")); }); bad("wrong-pde", [&](PL& p) { p.sublist("Plato Problem").set("PDE Constraint", std::string(in.p.pde == "Hyperbolic" ? "Parabolic" : in.p.physics == "Mechanical" ? "Parabolic" : "Hyperbolic")); });
    bad("missing-physics", [&](PL& p) { p.sublist("Plato Problem").remove("Physics"); }); bad("missing-pde", [&](PL& p) { p.sublist("Plato Problem").remove("PDE Constraint"); }); bad("missing-mesh", [&](PL& p) { p.remove("Input Mesh"); }); bad("unknown-mesh", [&](PL& p) { p.set("Input Mesh", std::string("n")); }); for (int q : {0, 4, -1}) bad("unsupported-dimension", [&](PL& p) { p.set("Spatial Dimension", q); }); bad("other-dimension", [&](PL& p) { p.set("Spatial Dimension", 3); }); } }
#endif
