// C27: the application a host optimizer drives.  Random histories of imports, operations and exports against problems built
// afresh for every operation: what is exported belongs to the last control, parameters and problem that were handed over.
#include "refsolve.hpp"
#include <sys/stat.h>
#include <unistd.h>
#include "Analyze_App.hpp"
#include "PlatoProblemFactory.hpp"
#include "Teuchos_XMLParameterListHelpers.hpp"
#include "hdf5.h"
using namespace refsolve; using Plato::InputData; using Plato::SharedData; namespace L = Plato::data;
static MPI_Comm world = MPI_COMM_WORLD; static Plato::Comm::Machine& machine() { static Plato::Comm::Machine m(world); return m; }
struct Quiet { std::streambuf* b; std::ostringstream s; Quiet() : b(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(b); } };
struct Clean { std::string dir; Clean() { char t[] = "/tmp/vh_app_XXXXXX"; dir = mkdtemp(t); } ~Clean() { Omega_h::mesh_files().clear(); Omega_h::read_sets() = Omega_h::MeshSets(); Omega_h::written().clear(); Plato::app_files().clear(); if (system(("rm -rf " + dir).c_str())) {} } };
struct Shared : SharedData { std::string n, ctx; L::layout_t l; D v; int sets = 0; Shared(const std::string& n_, L::layout_t l_, D v_, const std::string& c_ = "") : n(n_), ctx(c_), l(l_), v(v_) {} int size() const override { return v.size(); } std::string myName() const override { return n; } std::string myContext() const override { return ctx; } L::layout_t myLayout() const override { return l; } void setData(const std::vector<double>& d) override { v = d; ++sets; } void getData(std::vector<double>& d) const override { d = v; } };
static std::string num(double x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
static InputData op(const std::string& fn, const std::string& name) { InputData o("Operation"); o.add("Function", fn); o.add("Name", name); return o; }
static void out(InputData& o, const char* arg, const std::string& name) { InputData q("Output"); q.add("Argument", std::string(arg)); q.add("ArgumentName", name); o.add("Output", q); }
static InputData xyz(const char* n, const D& v) { InputData d(n); d.add("X", num(v[0])); d.add("Y", num(v[1])); d.add("Z", num(v[2])); return d; }
using AP = std::shared_ptr<Plato::AbstractProblem>; using MV = Plato::ScalarMultiVector;
struct Phy { const char *physics, *pde, *energy; int nd; const char* plot; };
static const Phy PH[] = {{"Mechanical", "Elliptic", "Internal Elastic Energy", 3, "stress"}, {"Thermomechanical", "Elliptic", "Internal Thermoelastic Energy", 4, "stress"}, {"Thermal", "Elliptic", "Internal Thermal Energy", 1, "flux"}, {"Thermomechanical", "Parabolic", "Internal Thermoelastic Energy", 4, ""}, {"Electromechanical", "Elliptic", "Internal Electroelastic Energy", 4, "stress"}, {"Thermal", "Parabolic", "Internal Thermal Energy", 1, ""}};
// one problem definition: the file it was written to, its mesh and the list as the host knows it
struct Def { Phy p; Geo g; PL q; std::string file, mesh, eset; };
static Def define(Rng& r, const Phy& p, const std::string& dir, int id, const Geo* on = nullptr, bool named = true) { Def f; f.p = p; f.g = on ? *on : box(r, d, 2, -1, true, 1); PL q; Model m = std::string(p.physics) == "Mechanical" ? phys::mechanics(r, d, 1, 0) : std::string(p.physics) == "Thermal" ? phys::thermal(r, d, 1, 0) : std::string(p.physics) == "Thermomechanical" ? phys::thermomechanics(r, d, 1, 0) : phys::electromechanics(r, d, 1); if (std::string(p.pde) == "Parabolic") heatMass(r, m, 0); m.put(q, f.g); std::vector<Load> ls; std::vector<Body> bs; genAllLoads(r, f.g, q, m, ls, bs, true); q.sublist(p.pde).sublist("Penalty Function") = pen(r).list(); if (*p.plot) { Teuchos::Array<std::string> a; a.push_back(p.plot); q.sublist(p.pde).set("Plottable", a); }
  q.set("Physics", std::string(p.physics)); q.set("PDE Constraint", std::string(p.pde)); std::map<int, double> bc; genBcs(r, f.g, q, p.nd, bc, false, nullptr, "Essential Boundary Conditions"); f.eset = q.sublist("Essential Boundary Conditions").name(q.sublist("Essential Boundary Conditions").begin()); { PL& b = q.sublist("Essential Boundary Conditions").sublist(f.eset); std::string s = b.get<std::string>("Sides"); int k = b.get<int>("Index", 0); b = PL(f.eset); b.set("Sides", s); b.set("Index", k); b.set("Type", std::string("Fixed Value")); b.set("Value", r.uni(0.2, 1)); PL& all = q.sublist("Essential Boundary Conditions"); std::vector<std::string> drop; for (auto it = all.begin(); it != all.end(); ++it) if (all.name(it) != f.eset && all.sublist(all.name(it)).get<int>("Index", 0) == k) drop.push_back(all.name(it)); for (auto& n : drop) all.remove(n); /* one value per dof */ }
  if (std::string(p.pde) == "Parabolic") { PL& t = q.sublist("Time Integration"); t.set("Number Time Steps", r.in(2, 4)); t.set("Time Step", r.uni(0.2, 1)); }
  auto crit = [&](const char* n, const char* ty, bool lin) { PL& l = q.sublist("Criteria").sublist(n); l.set("Type", std::string("Scalar Function")); l.set("Scalar Function Type", std::string(ty)); l.set("Linear", lin); Pen s; s.type = "SIMP"; s.p = lin ? 1.0 : r.uni(1, 3); s.mn = lin ? 0 : 1e-3; l.sublist("Penalty Function") = s.list(); }; crit("Energy", p.energy, false); crit("Volume", "Volume", true); crit("Solid", p.energy, false);
  PL& top = f.q; top.sublist("Plato Problem") = q; top.set("Spatial Dimension", 3); f.mesh = str("mesh", id, ".osh"); if (named) top.set("Input Mesh", f.mesh); f.file = str(dir, "/problem", id, ".xml"); Teuchos::writeParameterListToXmlFile(top, f.file); PL back; Teuchos::updateParametersFromXmlFile(f.file, Teuchos::ptr(&back)); f.q = back; Omega_h::mesh_files()[f.mesh] = {f.g.mesh, f.g.sets}; return f; }
// the problem of a definition, solved afresh
struct Fresh { AP P; Plato::Solution S; PL q; Geo g; Omega_h::MeshSets sets; };
static std::shared_ptr<Fresh> solve(const Def& f, const D& z) { auto o = std::make_shared<Fresh>(); o->q = f.q; o->g = f.g; o->sets = f.g.sets; o->P = Plato::ProblemFactory<3>().create(o->g.mesh, o->sets, o->q, machine()); o->S = o->P->solution(mk1(z)); return o; }
static D comp(const MV& s, int step, int k, int nd) { D v; for (size_t i = k; i < s.extent(1); i += nd) v.push_back(s(step, i)); return v; }
static bool readH5(const std::string& file, const std::string& name, D& v) { hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT); if (f < 0) return false; bool ok = H5Lexists(f, name.c_str(), H5P_DEFAULT) > 0; if (ok) { hid_t s = H5Dopen(f, name.c_str(), H5P_DEFAULT), sp = H5Dget_space(s); v.assign(H5Sget_simple_extent_npoints(sp), 0.0); ok = v.empty() || H5Dread(s, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) >= 0; H5Sclose(sp); H5Dclose(s); } H5Fclose(f); return ok; }
typedef Plato::Geometry::MeshMap<double> MM;
struct Run { Ctx& c; Rng& r; std::string dir; std::vector<Def> defs; InputData in; std::unique_ptr<Plato::MPMD_App> app; std::shared_ptr<MM> map; std::vector<double> target;
  int cur = 0; D raw, z; std::shared_ptr<Fresh> F; bool solved = false; int solvedDef = 0; std::map<std::string, double> val; std::map<std::string, D> gz, gx; std::string log;
  Run(Ctx& c_, const std::string& d_) : c(c_), r(c_.rng), dir(d_) {}
  static const char* crit(int i) { static const char* n[] = {"Energy", "Volume", "Solid"}; return n[i]; }
  bool linear(int i) { return i == 1; } int N() { return defs[cur].g.nn(); } std::string key() { return str(defs[cur].p.physics, "-", defs[cur].p.pde); }
  void start(bool withMap, bool cmdMesh) { in = InputData("PlatoApp"); for (size_t q = 0; q < defs.size(); ++q) { auto add = [&](InputData o) { if (q > 0) o.add("ProblemDefinition", defs[q].file); else if (r.coin(0.3)) o.add("ProblemDefinition", defs[0].file); in.add("Operation", o); };
      { InputData o = op("ComputeSolution", str("solve", q)); if (r.coin(0.3)) { InputData w("WriteOutput"); w.add("Directory", str("viz", q)); o.add("WriteOutput", w); } InputData p("Parameter"); p.add("ArgumentName", str("bc", q)); p.add("Target", "[Plato Problem]:[Essential Boundary Conditions]:[" + defs[q].eset + "]:Value"); p.add("InitialValue", num(1.0)); o.add("Parameter", p); InputData e("Parameter"); e.add("ArgumentName", std::string("exponent")); e.add("Target", std::string("[Plato Problem]:[Criteria]:[Energy]:[Penalty Function]:Exponent")); e.add("InitialValue", num(1.0)); o.add("Parameter", e); add(o); }
      for (int i = 0; i < 3; ++i) { std::string n = crit(i); auto mk = [&](const char* fn, bool v, const char* g) { InputData o = op(fn, str(fn, " ", n, " ", q)); o.add("Criterion", n); if (target[i] != 0) o.add("Target", num(target[i])); if (v) out(o, "Value", n + " value"); if (g) out(o, "Gradient", n + g); add(o); }; mk("ComputeCriterion", true, " gradient"); mk("ComputeCriterionX", true, " gradient x"); mk("ComputeCriterionValue", true, nullptr); mk("ComputeCriterionGradient", false, " gradient"); mk("ComputeCriterionGradientX", false, " gradient x"); } }
    { InputData o = op("MapCriterionGradientX", "map"); o.add("Criterion", std::string("Energy")); for (const char* n : {"dxdp 0", "dxdp 1"}) { InputData i("Input"); i.add("ArgumentName", std::string(n)); o.add("Input", i); } in.add("Operation", o); } { InputData o = op("ComputeFiniteDifference", "fd"); o.add("Delta", num(0.125)); for (int i = 0; i < 2; ++i) { InputData p("Parameter"); p.add("ArgumentName", std::string(i ? "Perturbed Index" : "Vector Length")); p.add("InitialValue", num(i ? 0 : 5)); o.add("Parameter", p); } in.add("Operation", o); }
    { InputData o = op("Reinitialize", "reinit"); in.add("Operation", o); InputData u = op("Reinitialize", "reinit on change"); u.add("OnChange", std::string("true")); in.add("Operation", u); in.add("Operation", op("UpdateProblem", "update")); InputData v = op("Visualization", "visualize"); v.add("OutputFile", std::string("visual")); in.add("Operation", v); InputData m = op("ReloadMesh", "reload"); m.add("ReloadFile", defs[0].mesh); in.add("Operation", m); InputData h = op("OutputToHDF5", "hdf5"); h.add("FileName", dir + "/out.h5"); for (const char* n : {"Solution X", "Solution Y", "Solution Z", "Energy gradient", "Energy gradient x@0", "Energy gradient x@1", "Energy gradient x@2"}) { if (defs[0].p.nd == 1 && n[0] == 'S' && n[9] != 'X') continue; InputData i("Input"); i.add("SharedDataName", std::string(n)); h.add("Input", i); } in.add("Operation", h); }
    if (withMap) { InputData m("MeshMap"), lm("LinearMap"); int ax = r.in(0, 2); D o(3, 0.1), n(3, 0.0); o[ax] = 0.5 * defs[0].g.L[ax]; n[ax] = 1; if (r.coin(0.7)) { lm.add("Type", std::string("SymmetryPlane")); lm.add("Origin", xyz("Origin", o)); lm.add("Normal", xyz("Normal", n)); } m.add("LinearMap", lm); InputData f("Filter"); f.add("Type", std::string("Linear")); f.add("Radius", num(r.uni(0.4, 1.2) * std::min(defs[0].g.L[0], std::min(defs[0].g.L[1], defs[0].g.L[2])))); m.add("Filter", f); in.add("MeshMap", m); ArborX::order_state() = 77; map = Plato::Geometry::MeshMapFactory<double>().create(defs[0].g.mesh, m); }
    std::string af = dir + "/app.xml"; Plato::app_files()[af] = in; setenv("PLATO_APP_FILE", af.c_str(), 1); std::string a0 = "analyze", a1 = "--input-config=" + defs[0].file, a2 = "--input-mesh=" + defs[0].mesh; char* av[] = {&a0[0], &a1[0], &a2[0], nullptr}; ArborX::order_state() = 77; app.reset(new Plato::MPMD_App(cmdMesh ? 3 : 2, av, world)); app->initialize(); z.assign(N(), 1.0); raw = z; }
  D carry(const D& u, bool T) { if (!map) return u; V1 a = mk1(u), b("b", u.size()); if (T) map->applyT(a, b); else map->apply(a, b); return get(b); }
  void enter(int q) { if (q == cur) return; bool other = defs[q].g.nn() != defs[cur].g.nn(); cur = q; if (other) { z.assign(N(), 1.0); raw = z; } solved = false; F.reset(); }
  std::shared_ptr<Fresh> fresh() { return solve(defs[cur], z); }
  void near(const D& a, const D& b, const std::string& k) { double s = 1e-6; for (double x : b) s = std::max(s, std::fabs(x)); near_(c, a, b, key() + "-" + k, 1e-8, s); }
  void control() { raw = uni(r, N(), 0.3, 1.0); if (r.coin(0.1)) std::fill(raw.begin(), raw.end(), 1.0); Shared s("Topology", L::SCALAR_FIELD, raw); app->importData("Topology", s); z = carry(raw, false); solved = false; c.check(s.v == raw, "import-keeps-shared-data"); }
  void stateOut() { int nd = defs[cur].p.nd; auto& S = F->S.State; int n = S.extent(0); for (int k = 0; k < std::min(3, nd); ++k) { const char* nm[] = {"Solution X", "Solution Y", "Solution Z"}; Shared s(nm[k], L::SCALAR_FIELD, D(N(), 1e30)); app->exportData(nm[k], s); near(s.v, comp(S, n - 1, k, nd), nm[k]); } if (n == 1) { Shared s("Solution", L::SCALAR_FIELD, D(S.extent(1), 1e30)); app->exportData("Solution", s); near(s.v, comp(S, 0, 0, 1), "Solution"); }
    const Phy& p = defs[cur].p; if (*p.plot) { auto dm = F->P->getDataMap(); auto it = dm.scalarMultiVectors.find(p.plot); if (it != dm.scalarMultiVectors.end()) { int ne = it->second.extent(0); for (size_t j = 0; j < it->second.extent(1); ++j) { D w; for (int e = 0; e < ne; ++e) w.push_back(it->second(e, j)); Shared s(p.plot, L::ELEMENT_FIELD, D(ne, 1e30)); app->exportData(str(p.plot, "@", j), s); near(s.v, w, "element-field"); ++elem; } } } }
  long elem = 0;
  void exports(int times) { for (int t = 0; t < times; ++t) { for (auto& q : val) { Shared s(q.first, L::SCALAR, D(1, 1e30)); app->exportData(q.first + " value", s); near(s.v, D{q.second}, "value"); } for (auto& q : gz) { Shared s(q.first, L::SCALAR_FIELD, D(q.second.size(), 1e30)); app->exportData(q.first + " gradient", s); near(s.v, q.second, "gradient-z"); } for (auto& q : gx) for (int k = 0; k < 3; ++k) { D w; for (size_t i = k; i < q.second.size(); i += 3) w.push_back(q.second[i]); Shared s(q.first, L::SCALAR_FIELD, D(w.size(), 1e30)); app->exportData(str(q.first, " gradient x@", k), s); near(s.v, w, "gradient-x"); } if (solved) stateOut(); Shared s("Topology", L::SCALAR_FIELD, D(N(), 1e30)); app->exportData("Topology", s); near(s.v, z, "topology"); } }
  void forget() { val.clear(); gz.clear(); gx.clear(); }
  void criterion(int q, int i, int how) { enterOp(q); std::string n = crit(i); static const char* fn[] = {"ComputeCriterion", "ComputeCriterionX", "ComputeCriterionValue", "ComputeCriterionGradient", "ComputeCriterionGradientX"}; if (how > 2 && !solved) how -= 3; log += str(fn[how], " ", n, " ", q, "; "); c.begin(log); app->compute(str(fn[how], " ", n, " ", q)); auto f = solved ? F : fresh(); if (how <= 2 && !linear(i)) { F = f; solved = true; } V1 Z = mk1(z); if (how <= 2) val[n] = f->P->criterionValue(Z, f->S, n) - target[i]; if (how == 0 || how == 3) gz[n] = carry(get(f->P->criterionGradient(Z, f->S, n)), true); if (how == 1 || how == 4) gx[n] = get(f->P->criterionGradientX(Z, f->S, n)); if (r.coin(0.6)) exports(r.in(1, 2)); }
  void enterOp(int q) { if (q != cur && defs[q].g.nn() != defs[cur].g.nn()) forget(); enter(q); if (dirty.count(cur)) { solved = false; F.reset(); dirty.erase(cur); } }
  std::set<int> dirty;
  void parameter(int q) { bool e = r.coin(0.4); double v = e ? r.in(4, 12) / 4.0 : r.uni(-1, 1); Shared s("p", L::SCALAR_PARAMETER, D(1, v), str("solve", q)); log += str("param ", e, " ", q, "; "); c.begin(log); app->importData(e ? std::string("exponent") : str("bc", q), s); PL& p = defs[q].q.sublist("Plato Problem"); if (e) p.sublist("Criteria").sublist("Energy").sublist("Penalty Function").set("Exponent", v); else p.sublist("Essential Boundary Conditions").sublist(defs[q].eset).set("Value", v); dirty.insert(q); }
  void sol(int q) { enterOp(q); log += str("solve ", q, "; "); c.begin(log); app->compute(str("solve", q)); F = fresh(); solved = true; exports(r.in(1, 2)); } };
SIM_GROUP(histories) { Clean cl; auto& r = c.rng; long elem = 0, ops = 0, maps = 0; for (int it = 0; it < c.n(36, 700); ++it) { Omega_h::mesh_files().clear(); Run R(c, cl.dir); bool withMap = r.coin(0.35), two = !withMap && r.coin(0.5); R.defs.push_back(define(r, PH[it % 6], cl.dir, 0)); if (two) R.defs.push_back(define(r, PH[r.in(0, 5)], cl.dir, 1, r.coin() ? &R.defs[0].g : nullptr)); for (int i = 0; i < 3; ++i) R.target.push_back(r.coin() ? 0 : r.uni(-2, 2)); c.begin(str("history ", R.key(), " ", R.defs[0].g.desc, withMap ? " map" : "", two ? " two" : "")); R.log = str(R.key(), withMap ? " map: " : ": "); Quiet quiet; R.start(withMap, false); maps += withMap;
    for (int s = 0; s < 9; ++s) { ++ops; int q = two && r.coin(0.3) ? 1 : R.cur, k = r.in(0, 9); if (k <= 2) { R.log += "import; "; c.begin(R.log); R.control(); } if (k <= 6) R.criterion(q, r.in(0, 2), r.in(0, 4)); else if (k == 7) R.sol(q); else if (k == 8) R.parameter(r.in(0, R.defs.size() - 1)); else if (R.cur == 0 && !R.dirty.count(0)) { R.log += "reinit; "; c.begin(R.log); R.app->compute(r.coin() ? "reinit" : "update"); R.solved = false; R.F.reset(); R.sol(0); } }
    elem += R.elem; } c.begin(str("reach: operations ", ops, " element fields ", elem, " with a map ", maps)); c.check(elem > 0 && maps > 0, "reach"); }
// what the optimizer differentiates: the exported gradient is the derivative of the exported value with respect to the imported control
SIM_GROUP(derivative) { Clean cl; auto& r = c.rng; for (int it = 0; it < c.n(12, 240); ++it) { Omega_h::mesh_files().clear(); Run R(c, cl.dir); R.defs.push_back(define(r, PH[it % 6], cl.dir, 0)); R.target = {0.3, 0, 0}; bool withMap = r.coin(0.7); c.begin(str("derivative ", R.key(), withMap ? " map" : "")); Quiet quiet; R.start(withMap, false); int n = R.N(); D z = uni(r, n, 0.4, 0.9), dir = uni(r, n, -1, 1); auto J = [&](const D& u) { Shared s("Topology", L::SCALAR_FIELD, u); R.app->importData("Topology", s); R.app->compute("ComputeCriterionValue Energy 0"); Shared v("v", L::SCALAR, D(1, 0)); R.app->exportData("Energy value", v); return v.v[0]; }; double j0 = J(z); R.app->compute("ComputeCriterionGradient Energy 0"); for (int t = 0; t < 2; ++t) { Shared g("g", L::SCALAR_FIELD, D(n, 0)); R.app->exportData("Energy gradient", g); auto be = fbest(J, z, dir, 2e-3); double a = dot(g.v, dir); if (std::isnan(be.first) || std::fabs(j0) > 1e4) continue; double m = 0; for (int i = 0; i < n; ++i) m = std::max(m, std::fabs(g.v[i] * dir[i])); c.check(std::fabs(a - be.first) <= 1e-5 * std::max(std::fabs(j0), m) + 10 * be.second + 1e-9, str(R.key(), "-derivative", withMap ? "-mapped" : ""), str(a, " expected ", be.first, " spread ", be.second)); } } }
// the remaining operations and the refusals
SIM_GROUP(services) { Clean cl; auto& r = c.rng; for (int it = 0; it < c.n(12, 240); ++it) { Omega_h::mesh_files().clear(); Run R(c, cl.dir); bool cmd = r.coin(0.4); R.defs.push_back(define(r, PH[it % 6], cl.dir, 0, nullptr, !cmd)); R.target = {0, 0, 0}; c.begin(str("services ", R.key())); Quiet quiet; R.start(false, cmd); auto& A = *R.app; int n = R.N(), nd = R.defs[0].p.nd; R.control(); A.compute("ComputeCriterion Energy 0"); R.F = R.fresh(); R.solved = true; A.compute("ComputeCriterionGradientX Energy 0"); V1 Z = mk1(R.z); D gx = get(R.F->P->criterionGradientX(Z, R.F->S, "Energy")), gz = get(R.F->P->criterionGradient(Z, R.F->S, "Energy")); auto& S = R.F->S.State;
    { D a = uni(r, 3 * n, -1, 1), b = uni(r, 3 * n, -1, 1); Shared s0("a", L::SCALAR, a), s1("b", L::SCALAR, b); A.importData("dxdp 0", s0); A.importData("dxdp 1", s1); A.compute("map"); Shared o("o", L::SCALAR, D(2, 1e30)); A.exportData("Criterion Sensitivity", o); R.near(o.v, {dot(gx, a), dot(gx, b)}, "mapped-gradient"); }
    { D w(5, 0.0); for (int t = 0; t < 4; ++t) { int i = r.in(0, 4); double a = r.uni(-1, 1), b = r.uni(-1, 1); w[i] = (b - a) / 0.125; Shared s0("a", L::SCALAR, {a}), s1("b", L::SCALAR, {b}), p("p", L::SCALAR_PARAMETER, {(double)i}, "fd"); A.importData("Initial Value", s0); A.importData("Perturbed Value", s1); A.importData("Perturbed Index", p); A.compute("fd"); Shared o("o", L::SCALAR, D(5, 1e30)); A.exportData("Gradient", o); R.near(o.v, w, "finite-difference"); } }
    { c.accepts([&] { A.compute("hdf5"); }, "hdf5-written"); std::string f = cl.dir + "/out.h5"; const char* nm[] = {"Solution X", "Solution Y", "Solution Z"}; for (int k = 0; k < std::min(3, nd); ++k) { D v; if (c.check(readH5(f, nm[k], v), "hdf5-field", nm[k])) R.near(v, comp(S, S.extent(0) - 1, k, nd), str("hdf5-", nm[k])); } D v; if (c.check(readH5(f, "Energy gradient", v), "hdf5-field", "gradient")) R.near(v, gz, "hdf5-gradient-z"); for (int k = 0; k < 3; ++k) { D w, e; for (size_t i = k; i < gx.size(); i += 3) w.push_back(gx[i]); if (c.check(readH5(f, str("Energy gradient x@", k), e), "hdf5-field", "gradient x")) R.near(e, w, "hdf5-gradient-x"); } unlink(f.c_str()); }
    { Omega_h::written().clear(); c.accepts([&] { A.compute("visualize"); }, "visualization-runs"); auto& w = Omega_h::written(); c.check(w.size() == S.extent(0), "visualization-steps", str(w.size())); for (size_t i = 0; i < w.size(); ++i) { c.check(w[i].path == "visual", "visualization-path", w[i].path); std::string fn = nd == 1 ? "Temperature" : "Displacements"; auto t = w[i].fields.find({0, fn}); if (c.check(t != w[i].fields.end(), "visualization-field")) { D e; int m = nd == 1 ? 1 : 3; for (int v = 0; v < n; ++v) for (int k = 0; k < m; ++k) e.push_back(S(i, v * nd + k)); R.near(t->second, e, "visualization-values"); } } Omega_h::written().clear(); }
    { D u = uni(r, S.extent(1), -1, 1); if (S.extent(0) == 1) { Shared s("Solution", L::SCALAR_FIELD, u); A.importData("Solution", s); Shared o("Solution", L::SCALAR_FIELD, D(u.size(), 0)); A.exportData("Solution", o); R.near(o.v, u, "solution-round-trip"); } }
    { std::vector<int> a, b; A.exportDataMap(L::SCALAR_FIELD, a); A.exportDataMap(L::ELEMENT_FIELD, b); bool ok = (int)a.size() == n && (int)b.size() == R.defs[0].g.ne(); for (size_t i = 0; ok && i < a.size(); ++i) ok = a[i] == (int)i + 1; for (size_t i = 0; ok && i < b.size(); ++i) ok = b[i] == (int)i + 1; c.check(ok, "data-map"); std::vector<int> x; c.rejects([&] { A.exportDataMap(L::SCALAR, x); }, "refuses-data-map-layout"); auto q = A.getCoords(); bool same = (int)q.extent(0) == n; for (int i = 0; same && i < n; ++i) for (int k = 0; k < 3; ++k) same = same && q(i, k) == R.defs[0].g.xyz[3 * i + k]; c.check(same, "coordinates"); }
    c.rejects([&] { A.compute("nothing"); }, "refuses-unknown-operation"); { Shared s("x", L::SCALAR, {1}); c.rejects([&] { A.importData("nothing", s); }, "refuses-unknown-import"); c.rejects([&] { A.exportData("nothing", s); }, "refuses-unknown-export"); Shared p("p", L::SCALAR_PARAMETER, {1}, "solve0"); c.rejects([&] { A.importData("nothing", p); }, "refuses-unknown-parameter"); Shared q("p", L::SCALAR_PARAMETER, {1}, "nothing"); c.rejects([&] { A.importData("bc0", q); }, "refuses-unknown-context"); }
    // a definition keeps what the host gave it: changed parameters survive a reinitialisation and a reloaded mesh
    { R.F.reset(); R.solved = false; R.parameter(0); R.sol(0); int how = r.in(0, 2); c.begin(str("kept parameters ", R.key(), " ", how)); c.accepts([&] { A.compute(how == 0 ? "reinit" : how == 1 ? "reload" : "reinit on change"); }, "reinitialises"); A.compute("ComputeCriterion Energy 0"); R.F = R.fresh(); R.solved = true; R.val["Energy"] = R.F->P->criterionValue(Z, R.F->S, "Energy"); R.gz["Energy"] = get(R.F->P->criterionGradient(Z, R.F->S, "Energy")); R.gx["Energy"] = gx; R.exports(1); }
    auto bad = [&](const char* k, std::function<void(InputData&)> f) { InputData x("PlatoApp"); f(x); std::string af = cl.dir + "/bad.xml"; Plato::app_files()[af] = x; setenv("PLATO_APP_FILE", af.c_str(), 1); std::string a0 = "analyze", a1 = "--input-config=" + R.defs[0].file, a2 = "--input-mesh=" + R.defs[0].mesh; char* av[] = {&a0[0], &a1[0], &a2[0], nullptr}; c.rejects([&] { Plato::MPMD_App b(3, av, world); b.initialize(); }, k); }; auto cv = [&](const char* n, const char* cr, const char* nm) { InputData o = op("ComputeCriterionValue", n); if (cr) o.add("Criterion", std::string(cr)); if (nm) out(o, "Value", nm); return o; };
    c.begin(str("refusals ", R.key())); bad("refuses-ambiguous-name", [&](InputData& x) { x.add("Operation", cv("a", "Energy", "v")); x.add("Operation", cv("b", "Volume", "v")); }); bad("refuses-missing-criterion", [&](InputData& x) { x.add("Operation", cv("a", nullptr, "v")); }); bad("refuses-empty-name", [&](InputData& x) { x.add("Operation", cv("a", "Energy", "")); }); bad("refuses-repeated-parameter", [&](InputData& x) { InputData o = op("ComputeSolution", "s"); for (int i = 0; i < 2; ++i) { InputData p("Parameter"); p.add("ArgumentName", std::string("p")); o.add("Parameter", p); } x.add("Operation", o); }); bad("refuses-two-maps", [&](InputData& x) { x.add("MeshMap", InputData("m")); x.add("MeshMap", InputData("m")); }); bad("refuses-two-outputs", [&](InputData& x) { InputData o = op("ComputeSolution", "s"); o.add("WriteOutput", InputData("w")); o.add("WriteOutput", InputData("w")); x.add("Operation", o); }); } }
