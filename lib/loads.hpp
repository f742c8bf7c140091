// Random natural boundary conditions and body loads, and their nodal forces by an independent assembly.
#pragma once
#include "sim.hpp"
namespace loads {
using namespace sim; static const int d = VDIM;
struct Load { std::string where; int off, n; D v; double pressure = 0; bool isP = false; double sign = -1, rate = 0; }; // rate: growth per unit time of every component
struct Body { int idx; int fn; double a; };
inline double bodyFn(const Body& b, const D& x) { switch (b.fn) { case 0: return b.a; case 1: return b.a * x[0]; default: return b.a * x[0] * x[1] + x[d - 1]; } }
inline std::string bodyStr(const Body& b) { std::ostringstream o; o.precision(17); o << std::fixed; const char* z = d == 3 ? "z" : "y"; if (b.fn == 0) o << b.a; else if (b.fn == 1) o << b.a << "*x"; else o << b.a << "*x*y+" << z; return o.str(); }
// reference: adds the loads; natural loads spread each face's total equally over its nodes
// with `at` given, body loads and the normals of pressure loads are taken on that mesh instead (see known_findings.json)
inline void addLoads(const Geo& h, const std::vector<Load>& ls, const std::vector<Body>& bs, const D& z, D& R, int nd, const Geo* at, double time = 0) {
  for (auto& l : ls) { auto fs = faces(h, "ss_" + l.where), f0 = at ? faces(*at, "ss_" + l.where) : fs; for (size_t k = 0; k < fs.size(); ++k) { auto& f = fs[k]; for (int v : f.v) for (int i = 0; i < l.n; ++i) R[v * nd + l.off + i] += l.sign * (l.isP ? l.pressure * f0[k].n[i] / f0[k].area * f.area : (l.v[i] + l.rate * time) * f.area) / d; } }
  const Geo& g = at ? *at : h;
  for (auto& b : bs) for (int e = 0; e < g.ne(); ++e) { auto c = cell(g, e); D x(d, 0.0); for (int v : c.v) for (int j = 0; j < d; ++j) x[j] += g.xyz[v * d + j] / (d + 1); for (int v : c.v) R[v * nd + b.idx] -= bodyFn(b, x) * nodeAvg(c, z) * c.vol / (d + 1); } }
inline void genLoads(Rng& r, const Geo& g, PL& top, const std::string& list, int off, int n, double sign, bool press, std::vector<Load>& out) {
  int k = r.in(0, 2); for (int q = 0; q < k; ++q) { Load l; l.where = r.pick(g.sides); l.off = off; l.n = n; l.v.assign(n, 0.0); l.sign = sign; PL& p = top.sublist(list).sublist(str("load ", q, " ", l.where)); p.set("Sides", "ss_" + l.where); int t = r.in(0, press ? 4 : 3);
    if (t == 0) { p.set("Type", std::string("Uniform")); l.v = uni(r, n, -2, 2); p.set("Values", arr(l.v)); }
    else if (t == 1) { p.set("Type", std::string("Uniform")); int i = r.in(0, n - 1); l.v[i] = r.uni(-2, 2); p.set("Value", l.v[i]); if (i > 0 || r.coin()) p.set("Index", i); }
    else if (t == 2) { l.rate = 1; p.set("Type", std::string("Uniform")); Teuchos::Array<std::string> s; for (auto& x : l.v) { x = r.in(-3, 3) / 2.0; std::ostringstream o; o << x << "+t"; s.push_back(x < 0 ? "0-" + str(-x) + "+t" : str(x) + "+t"); } p.set("Values", s); }
    else if (t == 3) { p.set("Type", std::string("Uniform Component")); int i = r.in(0, n - 1); l.v[i] = r.uni(-2, 2); p.set("Value", l.v[i]); const char* cx[3] = {"x", "y", "z"}; const char* CX[3] = {"X", "Y", "Z"}; p.set("Component", std::string(r.coin() ? cx[i] : CX[i])); }
    else { p.set("Type", std::string("Uniform Pressure")); l.isP = true; l.pressure = r.uni(-2, 2); p.set("Value", l.pressure); } out.push_back(l); } }
inline void genBody(Rng& r, PL& top, int nd, std::vector<Body>& out) { int k = r.coin() ? 0 : r.in(1, 2); for (int q = 0; q < k; ++q) { Body b{r.in(0, nd - 1), r.in(0, 2), r.uni(0.1, 2)}; PL& p = top.sublist("Body Loads").sublist(str("b", q)); p.set("Index", b.idx); p.set("Function", bodyStr(b)); out.push_back(b); } }
}
