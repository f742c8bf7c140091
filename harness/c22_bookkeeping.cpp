// C22: bookkeeping around the solvers: saved output states, Newton-Raphson stopping measures and diagnostics, parameter look-ups.
#include "kk.hpp"
#include "Teuchos_ParameterList.hpp"
#include "PlatoStaticsTypes.hpp"
#include "AnalyzeMacros.hpp"
#include "BLAS1.hpp"
#include "ParseTools.hpp"
#include "NewtonRaphsonUtilities.hpp"
#include <fstream>
#include <unistd.h>
using namespace kk; using PL = Teuchos::ParameterList;
// what a saved state must still contain, held apart from the views
struct Snap { std::map<std::string, double> s; std::map<std::string, D> v, m, a; };
static D flat(const V1& v) { return get(v); }
static D flat(const Plato::ScalarMultiVector& v) { D o; for (size_t i = 0; i < v.extent(0); ++i) for (size_t j = 0; j < v.extent(1); ++j) o.push_back(v(i, j)); return o; }
static D flat(const Plato::ScalarArray3D& v) { D o; for (size_t i = 0; i < v.extent(0); ++i) for (size_t j = 0; j < v.extent(1); ++j) for (size_t k = 0; k < v.extent(2); ++k) o.push_back(v(i, j, k)); return o; }
static Snap snap(const Plato::DataMap& d) { Snap o; o.s = d.mScalarValues; for (auto& q : d.scalarVectors) o.v[q.first] = flat(q.second); for (auto& q : d.scalarMultiVectors) o.m[q.first] = flat(q.second); for (auto& q : d.scalarArray3Ds) o.a[q.first] = flat(q.second); return o; }
static void same(Ctx& c, const Plato::DataMap& d, const Snap& w, const std::string& k) { Snap g = snap(d); c.check(g.s == w.s, k + "-scalars"); c.check(g.v == w.v, k + "-vectors"); c.check(g.m == w.m, k + "-multi-vectors"); c.check(g.a == w.a, k + "-arrays"); }
VH_GROUP(states) { auto& r = c.rng; for (int it = 0; it < c.n(300, 5000); ++it) { Plato::DataMap m; std::vector<Snap> saved; int ops = r.in(3, 30); std::string log; const char* nm[4] = {"stress", "strain", "Plastic Multiplier", "vonmises"};
    std::vector<std::pair<Plato::DataMap, Snap>> held; std::vector<std::string> names;
    c.begin(str("states ", ops, " ", r.u64() % 100000)); auto live = [&](Snap& s) { s = snap(m); }; Snap cur;
    for (int o = 0; o < ops; ++o) { int k = r.in(0, 9); std::string n = nm[r.in(0, 3)]; int a = r.in(0, 4), b = r.in(1, 3);
      if (k == 0) m.mScalarValues[n] = r.real(); else if (k == 1) { V1 v("v", a); for (int i = 0; i < a; ++i) v(i) = r.real(); m.scalarVectors[n] = v; } else if (k == 2) { Plato::ScalarMultiVector v("v", a, b); for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) v(i, j) = r.real(); m.scalarMultiVectors[n] = v; } else if (k == 3) { Plato::ScalarArray3D v("v", a, b, 2); for (int i = 0; i < a; ++i) for (int j = 0; j < b; ++j) for (int l = 0; l < 2; ++l) v(i, j, l) = r.real(); m.scalarArray3Ds[n] = v; }
      else if (k == 4) { for (auto& q : m.scalarVectors) for (size_t i = 0; i < q.second.size(); ++i) q.second(i) = r.real(); for (auto& q : m.scalarMultiVectors) for (size_t i = 0; i < q.second.extent(0); ++i) for (size_t j = 0; j < q.second.extent(1); ++j) q.second(i, j) = r.real(); for (auto& q : m.scalarArray3Ds) for (size_t i = 0; i < q.second.extent(0); ++i) q.second(i, 0, 0) = r.real(); } // the next step reuses the storage
      else if (k <= 6) { live(cur); m.saveState(); saved.push_back(cur); same(c, m, cur, "live-after-save"); }
      else if (k == 7) { if (r.coin(0.3)) { m.clearStates(); saved.clear(); } }
      else if (k == 8) { live(cur); Plato::DataMap s = m.getState(); c.check(s.stateDataMaps.empty(), "snapshot-holds-no-history"); same(c, s, cur, "current-state"); held.push_back({s, cur}); }
      else { int i = r.in(-2, (int)saved.size() + 1); if (saved.empty()) { live(cur); Plato::DataMap s = m.getState(i); same(c, s, cur, "state-without-history"); held.push_back({s, cur}); } else if (i < 0 || i >= (int)saved.size()) c.rejects([&] { m.getState(i); }, "refuses-missing-state", str(i, " of ", saved.size())); else same(c, m.getState(i), saved[i], "saved-state"); }
      c.check(m.stateDataMaps.size() == saved.size(), "number-of-states", str(m.stateDataMaps.size(), " expected ", saved.size())); }
    for (size_t i = 0; i < saved.size() && i < m.stateDataMaps.size(); ++i) same(c, m.getState(i), saved[i], "saved-state-at-end"); if (!saved.empty()) { c.rejects([&] { m.getState(saved.size()); }, "refuses-missing-state"); c.rejects([&] { m.getState(-1); }, "refuses-missing-state"); } for (auto& q : held) same(c, q.first, q.second, "held-state-at-end");
    { Plato::DataMap z(m); z.clearStates(); c.check(z.stateDataMaps.empty() && m.stateDataMaps.size() == saved.size(), "clear-only-this-map"); } } }
static std::string slurp(const std::string& f) { std::ifstream i(f); std::ostringstream o; o << i.rdbuf(); return o.str(); }
VH_GROUP(newton_measures) { auto& r = c.rng; using NR = Plato::NewtonRaphson; for (int it = 0; it < c.n(400, 10000); ++it) { bool rel = r.coin(); int n = r.in(1, 12); c.begin(str(rel ? "relative" : "absolute", " norms ", n, " ", r.u64() % 1000000)); Plato::NewtonRaphsonOutputData o; c.check(o.mWriteOutput && o.mCurrentIteration == 0 && o.mStopingCriterion == NR::DID_NOT_CONVERGE && o.mStoppingMeasure == NR::ABSOLUTE_RESIDUAL_NORM && o.mCurrentNorm == std::numeric_limits<double>::max() && o.mNormMeasure == o.mCurrentNorm && o.mReferenceNorm == o.mCurrentNorm, "fresh-record");
    double prev = 0; for (int i = 0; i < n; ++i) { double x = r.coin(0.1) ? prev : r.pos(), m0 = o.mNormMeasure, r0 = o.mReferenceNorm; if (x == 0) x = 1; o.mCurrentNorm = x; o.mCurrentIteration = i; auto keep = o; if (r.coin(0.1)) { for (double bad : {(double)NAN, (double)INFINITY, -(double)INFINITY}) { auto q = o; q.mCurrentNorm = bad; c.rejects([&] { rel ? Plato::compute_relative_residual_norm_error(q) : Plato::compute_absolute_residual_norm_error(q); }, "refuses-infinite-norm"); q = o; q.mReferenceNorm = bad; c.rejects([&] { rel ? Plato::compute_relative_residual_norm_error(q) : Plato::compute_absolute_residual_norm_error(q); }, "refuses-infinite-reference"); } } if (rel) Plato::compute_relative_residual_norm_error(o); else Plato::compute_absolute_residual_norm_error(o);
      double want = i == 0 ? m0 : std::fabs(r0 - x) / (rel ? x : 1); c.close(o.mNormMeasure, want, rel ? "relative-change-of-norm" : "absolute-change-of-norm", 0, 1e-13); c.check(o.mReferenceNorm == x && o.mCurrentNorm == x, "reference-is-last-norm"); c.check(o.mCurrentIteration == i && o.mWriteOutput == keep.mWriteOutput && o.mStopingCriterion == keep.mStopingCriterion && o.mStoppingMeasure == keep.mStoppingMeasure, "record-otherwise-untouched"); if (i > 0) c.check(r0 == prev, "reference-is-last-norm"); prev = x; } }
  for (int it = 0; it < c.n(200, 4000); ++it) { std::string names[2] = {"absolute residual norm", "relative residual norm"}; int k = r.in(0, 1); std::string s = names[k]; for (auto& ch : s) if (r.coin()) ch = std::toupper(ch); c.begin("criterion " + s); NR::measure_t m = NR::DISPLACEMENT_NORM; if (c.accepts([&] { m = Plato::newton_raphson_stopping_criterion(s); }, "criterion-name-accepted")) c.check(m == (k ? NR::RELATIVE_RESIDUAL_NORM : NR::ABSOLUTE_RESIDUAL_NORM), "criterion-name", s); std::string b = s; switch (r.in(0, 3)) { case 0: b += " "; break; case 1: b.erase(r.in(0, b.size() - 1), 1); break; case 2: b[r.in(0, b.size() - 1)] = '_'; break; default: b = r.coin() ? "" : "displacement norm"; } c.rejects([&] { Plato::newton_raphson_stopping_criterion(b); }, "unknown-criterion-refused", b); } }
VH_GROUP(newton_diagnostics) { auto& r = c.rng; using NR = Plato::NewtonRaphson; const std::string f = "newton.txt"; for (int it = 0; it < c.n(60, 600); ++it) { c.begin(str("diagnostics ", r.u64() % 1000000)); { std::ofstream closed; Plato::NewtonRaphsonOutputData o; c.rejects([&] { Plato::print_newton_raphson_diagnostics(o, closed); }, "closed-file-refused"); c.rejects([&] { Plato::print_newton_raphson_diagnostics_header(o, closed); }, "closed-file-refused"); c.rejects([&] { Plato::print_newton_raphson_stop_criterion(o, closed); }, "closed-file-refused"); o.mWriteOutput = false; c.accepts([&] { Plato::print_newton_raphson_diagnostics(o, closed); Plato::print_newton_raphson_diagnostics_header(o, closed); Plato::print_newton_raphson_stop_criterion(o, closed); }, "silent-without-output"); }
    bool w = r.coin(0.85); std::vector<std::vector<double>> rows; NR::stop_t stops[5] = {NR::MAX_NUMBER_ITERATIONS, NR::NORM_MEASURE_TOLERANCE, NR::CURRENT_NORM_TOLERANCE, NR::NaN_NORM_VALUE, NR::DID_NOT_CONVERGE}; const char* says[5] = {"maximum number of iterations", "stopping measure tolerance being met", "current norm tolerance being met", "NaN norm values", "did not converge"}; int st = r.in(0, 4); { std::ofstream o(f); Plato::NewtonRaphsonOutputData q; q.mWriteOutput = w; Plato::print_newton_raphson_diagnostics_header(q, o); int n = r.in(1, 8); for (int i = 0; i < n; ++i) { q.mCurrentIteration = i * r.in(1, 40); q.mCurrentNorm = r.pos(); q.mNormMeasure = r.pos(); rows.push_back({(double)q.mCurrentIteration, q.mCurrentNorm, q.mNormMeasure}); Plato::print_newton_raphson_diagnostics(q, o); } q.mStopingCriterion = stops[st]; Plato::print_newton_raphson_stop_criterion(q, o); }
    std::string t = slurp(f); unlink(f.c_str()); if (!w) { c.check(t.empty(), "silent-without-output", t.substr(0, 60)); continue; } std::istringstream in(t); std::string line; std::getline(in, line); { std::istringstream h(line); std::string a, b, e; h >> a >> b >> e; c.check(a == "Iter" && b == "Norm" && e == "Relative", "diagnostics-header", line); } for (auto& q : rows) { std::getline(in, line); std::istringstream l(line); double a = -1, b = 0, e = 0; l >> a >> b >> e; c.check(a == q[0], "diagnostics-iteration", line); c.close(b, q[1], "diagnostics-norm", 0, 2e-6); c.close(e, q[2], "diagnostics-measure", 0, 2e-6); } std::string rest((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); for (int i = 0; i < 5; ++i) c.check((rest.find(says[i]) != std::string::npos) == (i == st), "stop-reason", str(says[i], " / ", rest.substr(0, 120))); } }
VH_GROUP(parameters) { auto& r = c.rng; namespace PT = Plato::ParseTools; for (int it = 0; it < c.n(300, 5000); ++it) { PL p("top"); std::map<std::string, double> dv; std::map<std::string, int> iv; std::map<std::string, std::string> sv; std::map<std::string, bool> bv; std::string nm[6] = {"Exponent", "Minimum Value", "Type", "Index", "Linear", "Time Step"}; c.begin(str("parameters ", r.u64() % 1000000)); bool sub = r.coin(0.7); auto fill = [&](PL& l, bool rec) { for (auto& n : nm) if (r.coin(0.6)) { int k = r.in(0, 3); if (k == 0) { double x = r.real(); l.set(n, x); if (rec) dv[n] = x; } if (k == 1) { int x = r.in(-9, 9); l.set(n, x); if (rec) iv[n] = x; } if (k == 2) { std::string x = str("v", r.in(0, 99)); l.set(n, x); if (rec) sv[n] = x; } if (k == 3) { bool x = r.coin(); l.set(n, x); if (rec) bv[n] = x; } } };
    fill(p, true); for (auto& n : nm) { double d0 = r.real(); int i0 = r.in(-9, 9); std::string s0 = "dflt"; bool b0 = r.coin(); c.check(PT::getParam<double>(p, n, d0) == (dv.count(n) ? dv[n] : d0), "scalar-parameter", n); c.check(PT::getParam<int>(p, n, i0) == (iv.count(n) ? iv[n] : i0), "integer-parameter", n); c.check(PT::getParam<std::string>(p, n, s0) == (sv.count(n) ? sv[n] : s0), "string-parameter", n); c.check(PT::getParam<bool>(p, n, b0) == (bv.count(n) ? bv[n] : b0), "flag-parameter", n);
      const PL q(p); if (dv.count(n)) c.check(PT::getParam<double>(q, n) == dv[n], "required-scalar-parameter"); else c.rejects([&] { PT::getParam<double>(q, n); }, "missing-parameter-refused", n); if (sv.count(n)) c.check(PT::getParam<std::string>(q, n) == sv[n], "required-string-parameter"); else c.rejects([&] { PT::getParam<std::string>(q, n); }, "missing-parameter-refused", n); if (iv.count(n)) c.check(PT::getParam<int>(q, n) == iv[n], "required-integer-parameter"); else c.rejects([&] { PT::getParam<int>(q, n); }, "missing-parameter-refused", n); }
    { PL t("top"); t.set("Exponent", 99.0); std::map<std::string, double> in; if (sub) { PL& l = t.sublist("Newton Iteration"); for (auto& n : nm) if (r.coin()) { in[n] = r.real(); l.set(n, in[n]); } } else if (r.coin(0.3)) t.set("Newton Iteration", 3.0); for (auto& n : nm) { double d0 = r.real(); c.check(PT::getSubParam<double>(t, "Newton Iteration", n, d0) == (in.count(n) ? in[n] : d0), "sublist-parameter", n); } if (!sub) c.check(!t.isSublist("Newton Iteration"), "look-up-adds-no-list"); } } }
