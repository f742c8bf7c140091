// C28: linear solvers.  Whatever block system is handed over, the vector that comes back solves it (against a dense solve
// made here), the operator and vectors passed to the library are the ones given, the solver parameters are obeyed, and a
// system that does not fit the mesh is refused.
#include "kk.hpp"
#include <mpi.h>
#include "alg/PlatoSolverFactory.hpp"
using namespace kk; using PL = Teuchos::ParameterList; using O = Plato::OrdinalType; using Crs = Plato::CrsMatrix<O>;
static MPI_Comm world = MPI_COMM_WORLD; static Plato::Comm::Machine& machine() { static Plato::Comm::Machine m(world); return m; }
struct Sys { int n, d; std::vector<int> row, col; D val; int N() const { return n * d; }
  M dense() const { M A(N(), N()); for (int i = 0; i < n; ++i) for (int k = row[i]; k < row[i + 1]; ++k) for (int a = 0; a < d; ++a) for (int b = 0; b < d; ++b) A(i * d + a, col[k] * d + b) = val[(size_t)k * d * d + a * d + b]; return A; }
  Crs crs(int ra = 0, int cb = 0) const { typename Crs::RowMapVector r("r", row.size()); typename Crs::OrdinalVector c("c", col.size()); typename Crs::ScalarVector v("v", val.size()); for (size_t i = 0; i < row.size(); ++i) r(i) = row[i]; for (size_t i = 0; i < col.size(); ++i) c(i) = col[i]; for (size_t i = 0; i < val.size(); ++i) v(i) = val[i]; return Crs(r, c, v, ra ? ra : d, cb ? cb : d); } };
enum Kind { GENERAL, SPD, GRID };
// a block system with a sparse random graph (or a grid graph), row-diagonally dominant so that it is well conditioned
static Sys make(Rng& g, int n, int d, Kind kind, bool shuffle) { Sys s; s.n = n; s.d = d; std::set<std::pair<int, int>> e; if (kind == GRID) { int w = std::max(1, (int)std::sqrt((double)n)); for (int i = 0; i < n; ++i) { if (i % w + 1 < w && i + 1 < n) { e.insert({i, i + 1}); e.insert({i + 1, i}); } if (i + w < n) { e.insert({i, i + w}); e.insert({i + w, i}); } } } else for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j && g.coin(std::min(1.0, 3.0 / n))) { e.insert({i, j}); if (kind == SPD || g.coin(0.7)) e.insert({j, i}); }
  M A(s.N(), s.N()); for (auto& p : e) for (int a = 0; a < d; ++a) for (int b = 0; b < d; ++b) { if (kind == GRID) A(p.first * d + a, p.second * d + b) = a == b ? -1 : 0; else { A(p.first * d + a, p.second * d + b) = g.uni(-1, 1); if (kind == SPD && p.second < p.first) A(p.first * d + a, p.second * d + b) = A(p.second * d + b, p.first * d + a); } }
  if (kind == SPD) for (auto& p : e) if (p.second > p.first) for (int a = 0; a < d; ++a) for (int b = 0; b < d; ++b) A(p.second * d + b, p.first * d + a) = A(p.first * d + a, p.second * d + b);
  for (int i = 0; i < n; ++i) for (int a = 0; a < d; ++a) for (int b = 0; b < d; ++b) if (a != b && kind != GRID) A(i * d + a, i * d + b) = kind == SPD && b < a ? A(i * d + b, i * d + a) : g.uni(-1, 1);
  for (int q = 0; q < s.N(); ++q) { double t = 0; for (int p = 0; p < s.N(); ++p) if (p != q) t += std::fabs(A(q, p)); A(q, q) = kind == GRID ? 4.0 + 1e-3 : (t * g.uni(1.05, 1.6) + g.uni(0.1, 1)) * (kind == GENERAL && g.coin(0.3) ? -1 : 1); }
  if (kind == GENERAL && g.coin(0.4)) for (int q = 0; q < s.N(); ++q) { double f = std::pow(10.0, g.uni(-3, 3)); for (int p = 0; p < s.N(); ++p) A(q, p) *= f; }
  s.row.push_back(0); for (int i = 0; i < n; ++i) { std::vector<int> c; for (int j = 0; j < n; ++j) if (j == i || e.count({i, j})) c.push_back(j); if (shuffle) for (size_t k = c.size(); k > 1; --k) std::swap(c[k - 1], c[g.in(0, (int)k - 1)]); for (int j : c) { s.col.push_back(j); for (int a = 0; a < d; ++a) for (int b = 0; b < d; ++b) s.val.push_back(A(i * d + a, j * d + b)); } s.row.push_back((int)s.col.size()); } return s; }
static D gauss(M A, D b) { int n = A.r; for (int k = 0; k < n; ++k) { int p = k; for (int i = k + 1; i < n; ++i) if (std::fabs(A(i, k)) > std::fabs(A(p, k))) p = i; for (int j = 0; j < n; ++j) std::swap(A(k, j), A(p, j)); std::swap(b[k], b[p]); for (int i = k + 1; i < n; ++i) { double f = A(i, k) / A(k, k); if (f == 0) continue; for (int j = k; j < n; ++j) A(i, j) -= f * A(k, j); b[i] -= f * b[k]; } } for (int k = n - 1; k >= 0; --k) { for (int j = k + 1; j < n; ++j) b[k] -= A(k, j) * b[j]; b[k] /= A(k, k); } return b; }
static D mv(const M& A, const D& x) { D y(A.r, 0.0); for (int i = 0; i < A.r; ++i) for (int j = 0; j < A.c; ++j) y[i] += A(i, j) * x[j]; return y; }
static Omega_h::Mesh mesh(int n) { Omega_h::Mesh m; m.nv_ = n; return m; }
static double rel(const D& x, const D& y) { double e = 0; for (size_t i = 0; i < x.size(); ++i) e = std::max(e, std::isfinite(x[i]) ? std::fabs(x[i] - y[i]) : 1e300); return e / std::max(1e-300, amax(y)); }
#ifdef PLATO_TPETRA
static const char* DEFAULT = "Tpetra"; static const std::vector<std::string> STACKS = {"Epetra", "Tpetra"};
#else
static const char* DEFAULT = "Epetra"; static const std::vector<std::string> STACKS = {"Epetra"};
#endif
#ifdef PLATO_TPETRA
#define SG(NAME) VH_GROUP(NAME##_ll)
#else
#define SG(NAME) VH_GROUP(NAME)
#endif
static Plato::rcp<Plato::AbstractSolver> solver(PL p, Omega_h::Mesh& m, int d) { Plato::SolverFactory f(p); return f.create(m, machine(), d); }
static void dress(Rng& r, PL& p, const std::string& st, Kind kind, std::string& note) { p.set("Solver Stack", st); if (r.coin(0.5)) { p.set("Iterations", r.in(400, 900)); note += " iters"; } if (r.coin(0.5)) { p.set("Tolerance", std::pow(10.0, -r.uni(11, 14))); note += " tol"; } if (st == "Epetra") { if (r.coin(0.2)) p.set("Display Iterations", 0); return; }
  if (r.coin(0.5)) p.set("Solver Package", std::string("Belos")); if (r.coin(0.6)) { static const std::vector<std::string> any = {"GMRES", "BICGSTAB", "TFQMR", "Flexible GMRES"}, sym = {"CG", "MINRES"}; std::string s = kind != GENERAL && r.coin(0.4) ? "CG" : r.coin(0.7) ? "GMRES" : "Flexible GMRES"; (void)any; (void)sym; p.set("Solver", s); note += " " + s; }
  bool cg = p.isParameter("Solver") && p.get<std::string>("Solver") == "CG"; if (cg || r.coin(0.5)) { p.set("Preconditioner Package", std::string("IFpack2")); std::string t = cg ? "RELAXATION" : r.coin() ? "ILUT" : r.coin() ? "RILUK" : "RELAXATION"; p.set("Preconditioner Type", t); note += " " + t; if (t == "RELAXATION") { PL o; o.set("relaxation: type", std::string("Jacobi")); p.set("Preconditioner Options", o); } } if (r.coin(0.25)) { PL o; o.set("Maximum Iterations", 800); o.set("Convergence Tolerance", 1e-13); p.set("Solver Options", o); note += " options"; } }
// the conversions hand the library exactly what was given
SG(transfer) { auto& r = c.rng; long mats = 0, blocks = 0; for (int it = 0; it < c.n(600, 20000); ++it) { int n = r.in(1, 9), d = r.in(1, 5); Kind kind = r.coin() ? GENERAL : SPD; Sys s = make(r, n, d, kind, r.coin()); Omega_h::Mesh m = mesh(n); std::string st = r.pick(STACKS); c.begin(str(st, " n=", n, " d=", d, " nnz=", s.col.size(), " ", s.val[0])); M A = s.dense(); Crs crs = s.crs(); D u = rnd(r, n * d); V1 uv = mk1(u); int N = n * d; ++mats; blocks += s.col.size(); D wrong = rnd(r, N + (r.coin() && N > 1 ? -1 : r.in(1, 3)));
    int n2 = n + (r.coin() && n > 1 ? -1 : r.in(1, 2)); Sys s2 = make(r, n2, d, kind, false); Sys s3 = make(r, n, d + (r.coin() && d > 1 ? -1 : 1), kind, false);
    if (st == "Epetra") { Plato::EpetraSystem sys(m, machine(), d); auto E = sys.fromMatrix(crs); c.check(E->NumGlobalRows() == N && E->NumGlobalCols() == N && E->NumGlobalBlockRows() == n && E->NumGlobalBlockEntries() == (int)s.col.size(), "epetra-matrix-shape");
      for (int j = 0; j < N; ++j) { D e(N, 0.0); e[j] = 1; auto x = sys.fromVector(mk1(e)), y = sys.fromVector(mk1(D(N, 0.0))); E->Multiply(false, *x, *y); V1 o = mk1(D(N, 7.0)); sys.toVector(o, y); for (int i = 0; i < N; ++i) c.check(o(i) == A(i, j), "epetra-matrix-entry", str(i, ",", j, ": ", o(i), " vs ", A(i, j))); }
      auto x = sys.fromVector(uv); V1 o = mk1(D(N, 7.0)); sys.toVector(o, x); c.check(memcmp(&get(o)[0], &u[0], N * 8) == 0, "epetra-vector-roundtrip"); (*x)[0] += 1; same(c, get(uv), u, "epetra-vector-is-a-copy"); V1 w = mk1(wrong); c.rejects([&] { sys.fromVector(w); }, "epetra-vector-size"); c.rejects([&] { sys.toVector(w, x); }, "epetra-output-size"); c.rejects([&] { sys.fromMatrix(s2.crs()); }, "epetra-matrix-rows"); c.rejects([&] { sys.fromMatrix(s3.crs()); }, "epetra-matrix-block"); }
#ifdef PLATO_TPETRA
    else { Plato::TpetraSystem sys(m, machine(), d); auto E = sys.fromMatrix(crs); c.check((int)E->getGlobalNumRows() == N && (int)E->getGlobalNumCols() == N && E->getGlobalNumEntries() == s.val.size(), "tpetra-matrix-shape");
      for (int j = 0; j < N; ++j) { D e(N, 0.0); e[j] = 1; auto x = sys.fromVector(mk1(e)), y = sys.fromVector(mk1(D(N, 0.0))); E->apply(*x, *y); V1 o = mk1(D(N, 7.0)); sys.toVector(o, y); for (int i = 0; i < N; ++i) c.check(o(i) == A(i, j), "tpetra-matrix-entry", str(i, ",", j, ": ", o(i), " vs ", A(i, j))); }
      auto x = sys.fromVector(uv); V1 o = mk1(D(N, 7.0)); sys.toVector(o, x); c.check(memcmp(&get(o)[0], &u[0], N * 8) == 0, "tpetra-vector-roundtrip"); x->scale(2.0); same(c, get(uv), u, "tpetra-vector-is-a-copy"); V1 w = mk1(wrong); c.rejects([&] { sys.fromVector(w); }, "tpetra-vector-size"); c.rejects([&] { sys.toVector(w, x); }, "tpetra-output-size"); c.rejects([&] { sys.fromMatrix(s2.crs()); }, "tpetra-matrix-rows"); if (s3.N() != N) c.rejects([&] { sys.fromMatrix(s3.crs()); }, "tpetra-matrix-block"); }
#endif
    D v0; for (size_t i = 0; i < crs.entries().extent(0); ++i) v0.push_back(crs.entries()(i)); same(c, v0, s.val, "matrix-untouched"); } c.check(mats > 100 && blocks > 500, "transfer-coverage"); }
// the answer solves the system
SG(solve) { auto& r = c.rng; std::map<std::string, long> seen; for (int it = 0; it < c.n(500, 15000); ++it) { int d = r.in(1, 5), n = r.in(1, d > 2 ? 12 : 24); Kind kind = (Kind)r.in(0, 2); Omega_h::Mesh m = mesh(n); std::string st = r.pick(STACKS), note; PL p; dress(r, p, st, kind, note); if (st == DEFAULT && r.coin(0.3)) p.remove("Solver Stack"); c.begin(str(st, note, " n=", n, " d=", d, " kind=", kind)); ++seen[st]; Plato::rcp<Plato::AbstractSolver> S; if (!c.accepts([&] { S = solver(p, m, d); }, "solver-created")) continue;
    int times = r.in(1, 3); for (int k = 0; k < times; ++k) { Sys s = make(r, n, d, kind, r.coin(0.3)); M A = s.dense(); Crs crs = s.crs(); D b = uni(r, n * d, -1, 1), x0 = r.coin() ? D(n * d, 0.0) : uni(r, n * d, -3, 3); if (r.coin(0.2)) for (auto& x : b) x *= 1e6; if (r.coin(0.15)) { b.assign(n * d, 0.0); b[r.in(0, n * d - 1)] = 1; } V1 bv = mk1(b), xv = mk1(x0); D want = gauss(A, b); if (!c.accepts([&] { S->solve(crs, xv, bv); }, st + "-solve-completes")) continue;
      D got = get(xv); c.check(rel(got, want) < 1e-7, st + "-solution", str("relative error ", rel(got, want), note, " call ", k)); D res = mv(A, got); double sc = 0; for (double a : A.a) sc = std::max(sc, std::fabs(a)); sc = sc * amax(got) + amax(b); double e = 0; for (size_t i = 0; i < b.size(); ++i) e = std::max(e, std::fabs(res[i] - b[i])); c.check(e <= 1e-7 * sc, st + "-residual", str(e, " scale ", sc)); same(c, get(bv), b, st + "-right-hand-side-untouched"); D v0; for (size_t i = 0; i < crs.entries().extent(0); ++i) v0.push_back(crs.entries()(i)); same(c, v0, s.val, st + "-matrix-untouched"); } }
  for (auto& s : STACKS) c.check(seen[s] > 50, "solve-coverage"); }
// the iteration limit and the tolerance are obeyed
SG(limits) { auto& r = c.rng; for (int it = 0; it < c.n(60, 1200); ++it) { int w = r.in(12, 16), n = w * w, d = 1; std::string st = r.pick(STACKS); Omega_h::Mesh m = mesh(n); Sys s = make(r, n, d, GRID, false); M A = s.dense(); D b = uni(r, n, -1, 1), want = gauss(A, b); double tol = std::pow(10.0, -r.uni(1, 3)); c.begin(str(st, " n=", n, " tol=", tol)); auto run = [&](PL p) { p.set("Solver Stack", st); V1 x = mk1(D(n, 0.0)), bv = mk1(b); solver(p, m, d)->solve(s.crs(), x, bv); return rel(get(x), want); };
    PL tight; tight.set("Iterations", 500); tight.set("Tolerance", 1e-13); double et = run(tight); PL loose; loose.set("Iterations", 500); loose.set("Tolerance", tol); double el = run(loose); PL few; few.set("Iterations", 2); few.set("Tolerance", 1e-13); double ef = run(few); PL one; one.set("Tolerance", tol); double eo = run(one);
    c.check(et < 1e-8, st + "-tight", str(et)); c.check(el > 1e-7 && el < 0.9, st + "-tolerance-obeyed", str("error ", el, " with tolerance ", tol)); c.check(ef > 1e-6 && ef < 1, st + "-iteration-limit-obeyed", str("error ", ef, " after two iterations")); c.check(eo == el, st + "-default-iterations", str(eo, " vs ", el)); PL dflt; double ed = run(dflt); c.check(ed < 1e-8, st + "-defaults", str(ed)); PL dt; dt.set("Iterations", 2); double ei = run(dt); c.check(std::fabs(ei - ef) <= 1e-6 * ef, st + "-default-tolerance", str(ei, " vs ", ef));
#ifdef PLATO_TPETRA
    if (st == "Tpetra") { PL o; PL so; so.set("Maximum Iterations", 500); so.set("Convergence Tolerance", tol); o.set("Solver Options", so); double eop = run(o); c.check(eop == el, "tpetra-solver-options", str(eop, " vs ", el)); }
#endif
  } }
// what cannot be honoured is refused
SG(refusals) { auto& r = c.rng; for (int it = 0; it < c.n(60, 1500); ++it) { int n = r.in(1, 8), d = r.in(1, 3); Omega_h::Mesh m = mesh(n); Sys s = make(r, n, d, GENERAL, false); c.begin(str("n=", n, " d=", d, " ", it)); V1 b = mk1(uni(r, n * d)), x = mk1(D(n * d, 0.0)); auto stack = [&](const std::string& v) { PL p; p.set("Solver Stack", v); return p; };
    for (const char* v : {"epetra", "", "Aztec", "AmgX", "tpetra", "Epetra "}) c.rejects([&] { solver(stack(v), m, d); }, "unknown-stack", v);
#ifndef PLATO_TPETRA
    c.rejects([&] { solver(stack("Tpetra"), m, d); }, "absent-stack"); auto S0 = solver(PL(), m, d); c.check(dynamic_cast<Plato::EpetraLinearSolver*>(S0.get()) != nullptr, "default-stack");
#else
    auto S0 = solver(PL(), m, d); c.check(dynamic_cast<Plato::TpetraLinearSolver*>(S0.get()) != nullptr, "default-stack"); PL p = stack("Tpetra"); p.set("Solver Package", std::string("Aztec")); c.rejects([&] { solver(p, m, d); }, "tpetra-no-solver"); p.set("Solver", std::string("GMRES")); c.rejects([&] { solver(p, m, d)->solve(s.crs(), x, b); }, "tpetra-solver-package"); PL q = stack("Tpetra"); q.set("Preconditioner Package", std::string("ML")); c.rejects([&] { solver(q, m, d)->solve(s.crs(), x, b); }, "tpetra-preconditioner-package"); PL t = stack("Tpetra"); t.set("Solver", std::string("Newton")); c.rejects([&] { solver(t, m, d)->solve(s.crs(), x, b); }, "tpetra-unknown-solver"); PL u = stack("Tpetra"); u.set("Preconditioner Type", std::string("Cholesky?")); c.rejects([&] { solver(u, m, d)->solve(s.crs(), x, b); }, "tpetra-unknown-preconditioner");
#endif
    c.check(dynamic_cast<Plato::EpetraLinearSolver*>(solver(stack("Epetra"), m, d).get()) != nullptr, "named-stack"); for (auto& st : STACKS) { V1 w = mk1(D(n * d + 1, 1.0)); auto S = solver(stack(st), m, d); c.rejects([&] { S->solve(s.crs(), w, b); }, st + "-solution-size"); c.rejects([&] { S->solve(s.crs(), x, w); }, st + "-right-hand-side-size"); Sys s2 = make(r, n + 1, d, GENERAL, false); c.rejects([&] { S->solve(s2.crs(), x, b); }, st + "-matrix-size"); if (n > 1) { Sys s3 = make(r, n - 1, d, GENERAL, false); c.rejects([&] { S->solve(s3.crs(), x, b); }, st + "-matrix-size"); } } } }
// reductions over the processes of the machine (one here)
SG(machine) { auto& r = c.rng; c.begin("one process"); auto& m = machine(); c.check(Plato::Comm::size(m) == 1 && Plato::Comm::rank(m) == 0, "size-and-rank"); for (int it = 0; it < c.n(300, 5000); ++it) { double v = r.real(); c.begin(str(v)); c.check(Plato::Comm::max(m, v) == v && Plato::Comm::min(m, v) == v && Plato::Comm::sum(m, v) == v, "scalar-reduction"); D a = rnd(r, r.in(1, 6)), b(a.size(), 3.0), a0 = a; Plato::Comm::allReduce(m, (int)a.size(), a.data(), b.data()); c.check(b == a0 && a == a0, "array-reduction"); } }
#ifndef PLATO_TPETRA
// the predefined AmgX configurations are well formed and carry what was asked for
#include "alg/AmgXConfigs.hpp"
struct J { std::string text; std::map<std::string, J> kid; bool obj = false; };
struct Parse { const std::string& s; size_t i; explicit Parse(const std::string& t) : s(t), i(0) {} void ws() { while (i < s.size() && isspace((unsigned char)s[i])) ++i; } void need(char ch) { ws(); if (i >= s.size() || s[i] != ch) throw std::runtime_error(str("expected ", ch, " at ", i)); ++i; } std::string quoted() { need('"'); size_t b = i; while (i < s.size() && s[i] != '"') ++i; std::string t = s.substr(b, i - b); need('"'); return t; }
  J value() { J j; ws(); if (i < s.size() && s[i] == '{') { j.obj = true; ++i; while (true) { std::string k = quoted(); need(':'); if (j.kid.count(k)) throw std::runtime_error("key twice: " + k); j.kid[k] = value(); ws(); if (i < s.size() && s[i] == ',') { ++i; continue; } need('}'); return j; } } if (i < s.size() && s[i] == '"') { j.text = quoted(); return j; } size_t b = i; while (i < s.size() && (isalnum((unsigned char)s[i]) || strchr("+-.", s[i]))) ++i; j.text = s.substr(b, i - b); char* e; if (j.text.empty()) throw std::runtime_error("no value"); strtod(j.text.c_str(), &e); if (*e) throw std::runtime_error("not a number: " + j.text); return j; } };
VH_GROUP(amgx) { auto& r = c.rng; for (int it = 0; it < c.n(400, 6000); ++it) { std::string o = r.pick(std::vector<std::string>{"eaf", "default", "pcg_noprec", "pcg_v", "pcg_w", "pcg_f", "agg_cheb4"}); double tol = r.coin(0.7) ? std::pow(10.0, -r.in(1, 16)) : r.uni(1e-12, 1); int its = r.coin(0.2) ? 1 : r.in(2, 1000000); bool abs = r.coin(); c.begin(str(o, " ", tol, " ", its, " ", abs)); std::string t; if (!c.accepts([&] { t = Plato::configurationString(o, tol, its, abs); }, "known-configuration")) continue; J j; Parse p(t); if (!c.accepts([&] { j = p.value(); p.ws(); if (p.i != t.size()) throw std::runtime_error("text after the configuration"); }, "well-formed", o)) continue; J& m = j.kid["solver"]; c.check(m.obj && m.kid["scope"].text == "main" && m.kid["norm"].text == "L2" && !m.kid["solver"].text.empty(), "main-solver", o); c.check(m.kid["convergence"].text == (abs ? "ABSOLUTE" : "RELATIVE_INI_CORE"), "kind-of-tolerance", m.kid["convergence"].text); if (o != "default") { c.check(std::fabs(atof(m.kid["tolerance"].text.c_str()) - tol) <= 1e-5 * tol, "tolerance", m.kid["tolerance"].text); c.check(m.kid["max_iters"].text == str(its), "iteration-limit", m.kid["max_iters"].text); } }
  for (const char* o : {"", "EAF", "pcg", "pcg_x", "default "}) { c.begin(str("unknown ", o)); c.rejects([&] { Plato::configurationString(o, 1e-8, 10, false); }, "unknown-configuration", o); } }
#endif
