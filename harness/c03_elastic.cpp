// C03 (mesh-side materials): the linear elastic, electroelastic and thermoelastic families build the stiffness, coupling, strain, density,
// scaling and damping their parameter lists describe, or refuse the list.
#include "sim.hpp"
#include "AnalyzeMacros.hpp"
#include "IsotropicLinearElasticMaterial.hpp"
#include "CubicLinearElasticMaterial.hpp"
#include "OrthotropicLinearElasticMaterial.hpp"
#include "CustomLinearElasticMaterial.hpp"
#include "ElasticModelFactory.hpp"
#include "LinearElectroelasticMaterial.hpp"
#include "LinearThermoelasticMaterial.hpp"
using namespace sim;
template <class X> static D mat(const X& a, int n, int m) { D v; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) v.push_back(a(i, j)); return v; }
template <class X> static D vecd(const X& a, int n) { D v; for (int i = 0; i < n; ++i) v.push_back(a(i)); return v; }
template <int d> struct Built { M C; D e0; double rho, ps, ra, rb; };
template <int d> static Built<d> build(const PL& l, int fam, bool factory) { Built<d> b; int n = nvoigt(d); b.C = M(n, n);
  auto take = [&](const Plato::LinearElasticMaterial<d>& m) { b.C.a = mat(m.getStiffnessMatrix(), n, n); b.e0 = vecd(m.getReferenceStrain(), n); b.rho = m.getMassDensity(); b.ps = m.getPressureScaling(); b.ra = m.getRayleighA(); b.rb = m.getRayleighB(); };
  const char* nm[4] = {"Isotropic Linear Elastic", "Cubic Linear Elastic", "Orthotropic Linear Elastic", "Custom Linear Elastic"}; PL p(l); const PL& q = p.sublist(nm[fam]);
  if (factory) { PL t; t.sublist("Material Models").sublist("m") = l; Plato::ElasticModelFactory<d> f(t); auto x = f.create("m"); if (x == Teuchos::null) throw std::runtime_error("no model"); take(*x); return b; }
  if (fam == 0) take(Plato::IsotropicLinearElasticMaterial<d>(q)); if (fam == 1) take(Plato::CubicLinearElasticMaterial<d>(q)); if (fam == 2) take(Plato::OrthotropicLinearElasticMaterial<d>(q)); if (fam == 3) take(Plato::CustomLinearElasticMaterial<d>(q)); return b; }
template <int d> static void families(Ctx& c) { auto& r = c.rng; for (int it = 0; it < c.n(400, 8000); ++it) { int fam = r.in(0, 3); Mat4 m = elastic(r, d, fam); PL& p = m.list.sublist(m.family);
    if (d == 1 && fam == 2) { p = PL(); m.E = r.uni(0.5, 4); m.nu = r.uni(-0.2, 0.4); p.set("Youngs Modulus", m.E); p.set("Poissons Ratio", m.nu); m.C = iso(1, m.E, m.nu); m.e0.assign(1, 0.0); m.rho = 1; }
    double ra = 0, rb = 0, ps = -1; if (r.coin()) { ra = r.uni(0, 2); p.set("RayleighA", ra); } if (r.coin()) { rb = r.uni(0, 2); p.set("RayleighB", rb); } if ((fam == 0 || fam == 3) && r.coin()) { ps = r.uni(0.5, 3); p.set("Pressure Scaling", ps); }
    bool fac = r.coin(); c.begin(str(m.family, " ", d, "D factory ", fac, " C00 ", m.C(0, 0), " e0 ", m.e0[0], " rho ", m.rho)); Built<d> b; if (!c.accepts([&] { b = build<d>(m.list, fam, fac); }, "elastic-accepts-valid")) continue;
    near_(c, b.C.a, m.C.a, "elastic-stiffness", 1e-11); near_(c, tr(b.C).a, b.C.a, "elastic-stiffness-symmetric", 1e-13); near_(c, b.e0, m.e0, "elastic-reference-strain", 0); c.close(b.rho, m.rho, "elastic-density", 0, 0); c.close(b.ra, ra, "elastic-rayleigh-a", 0, 0); c.close(b.rb, rb, "elastic-rayleigh-b", 0, 0);
    if (fam == 0 || fam == 3) c.close(b.ps, ps > 0 ? ps : m.E / (3 * (1 - 2 * m.nu)), "elastic-pressure-scaling", 0, 1e-13);
    // every required entry dropped in turn
    std::vector<std::string> req = fam == 0 || (fam == 2 && d == 1) ? std::vector<std::string>{"Youngs Modulus", "Poissons Ratio"} : fam == 1 ? (d == 1 ? std::vector<std::string>{"C11"} : std::vector<std::string>{"C11", "C12", "C44"}) : fam == 3 ? std::vector<std::string>{"E", "v", "Equation"} : d == 2 ? std::vector<std::string>{"Youngs Modulus X", "Youngs Modulus Y", "Poissons Ratio XY", "Shear Modulus XY"} : std::vector<std::string>{"Youngs Modulus X", "Youngs Modulus Y", "Youngs Modulus Z", "Poissons Ratio XY", "Poissons Ratio XZ", "Poissons Ratio YZ", "Shear Modulus XY", "Shear Modulus XZ", "Shear Modulus YZ"};
    { PL l(m.list); std::string k = r.pick(req); l.sublist(m.family).remove(k); c.rejects([&] { build<d>(l, fam, fac); }, "elastic-refuses-missing", m.family + " without " + k); }
    if (fam == 2 && d > 1) { // outside the stability bounds of an orthotropic solid
      PL l(m.list); PL& q = l.sublist(m.family); int k = r.in(0, 2); const char* ax = "XYZ"; if (k == 0) q.set(str("Youngs Modulus ", ax[r.in(0, d - 1)]), -r.uni(0.1, 2)); else if (k == 1) q.set(r.coin() || d == 2 ? "Shear Modulus XY" : r.coin() ? "Shear Modulus XZ" : "Shear Modulus YZ", -r.uni(0.1, 2)); else { int a = 0, b2 = 1; if (d == 3) { a = r.in(0, 1); b2 = a == 1 ? 2 : r.in(1, 2); } double Ea = q.template get<double>(str("Youngs Modulus ", ax[a])), Eb = q.template get<double>(str("Youngs Modulus ", ax[b2])); q.set(str("Poissons Ratio ", ax[a], ax[b2]), r.sgn() * std::sqrt(Ea / Eb) * r.uni(1.01, 3)); }
      c.rejects([&] { build<d>(l, fam, fac); }, "orthotropic-refuses-unstable", str("kind ", k)); } } }
VH_GROUP(elastic_1) { families<1>(c); } VH_GROUP(elastic_2) { families<2>(c); } VH_GROUP(elastic_3) { families<3>(c); }

template <int d> static void electro(Ctx& c) { auto& r = c.rng; int n = nvoigt(d); for (int it = 0; it < c.n(200, 5000); ++it) { PL top; PL& l = top.sublist("Material Models").sublist("m").sublist("Isotropic Linear Electroelastic"); double E = r.uni(1, 3), nu = r.uni(-0.2, 0.4), e15 = r.uni(-1, 1), e31 = r.uni(-1, 1), e33 = r.uni(-1, 1), p11 = r.uni(0.5, 2), p33 = r.uni(0.5, 2), a = 1; l.set("Youngs Modulus", E); l.set("Poissons Ratio", nu); l.set("e33", e33); l.set("p33", p33); if (d > 1) { l.set("e15", e15); l.set("e31", e31); l.set("p11", p11); } if (r.coin()) { a = r.uni(0.5, 2); l.set("Alpha", a); }
    c.begin(str("electroelastic ", d, "D E ", E, " nu ", nu, " e15 ", e15, " alpha ", a)); M e(d, n), P(d, d); for (int i = 0; i + 1 < d; ++i) { P(i, i) = p11; e(d - 1, i) = e31; } P(d - 1, d - 1) = p33; e(d - 1, d - 1) = e33; for (int k = d; k < n; ++k) { auto q = vij(d, k); if (q.second == d - 1) e(q.first, k) = e15; }
    Plato::ElectroelasticModelFactory<d> f(top); auto m = f.create("m"); near_(c, mat(m->getStiffnessMatrix(), n, n), iso(d, E, nu).a, "electro-stiffness", 1e-12); near_(c, mat(m->getPiezoMatrix(), d, n), e.a, "electro-piezo", 0); near_(c, mat(m->getPermittivityMatrix(), d, d), P.a, "electro-permittivity", 0); c.close(m->getAlpha(), a, "electro-alpha", 0, 0);
    std::vector<std::string> req{"Youngs Modulus", "Poissons Ratio", "e33", "p33"}; if (d > 1) for (auto s : {"e15", "e31", "p11"}) req.push_back(s); PL b(top); std::string k = r.pick(req); b.sublist("Material Models").sublist("m").sublist("Isotropic Linear Electroelastic").remove(k); Plato::ElectroelasticModelFactory<d> g(b); c.rejects([&] { g.create("m"); }, "electro-refuses-missing", k); c.rejects([&] { f.create("other"); }, "electro-refuses-unknown"); } }
VH_GROUP(electroelastic) { electro<1>(c); electro<2>(c); electro<3>(c); }

template <int d> static void thermo(Ctx& c) { auto& r = c.rng; int n = nvoigt(d); for (int it = 0; it < c.n(200, 5000); ++it) { bool cub = r.coin(); PL top; PL& l = top.sublist("Material Models").sublist("m").sublist(cub ? "Cubic Linear Thermoelastic" : "Isotropic Linear Thermoelastic"); double E = r.uni(1, 3), nu = r.uni(-0.2, 0.4); l.set("Youngs Modulus", E); l.set("Poissons Ratio", nu); D a(d), k(d); std::vector<std::string> req{"Youngs Modulus", "Poissons Ratio", "Reference Temperature"};
    if (cub) for (int i = 0; i < d; ++i) { a[i] = r.uni(0, 1); k[i] = r.uni(0.1, 2); l.set(str("a", i + 1, i + 1), a[i]); l.set(str("k", i + 1, i + 1), k[i]); req.push_back(str("a", i + 1, i + 1)); req.push_back(str("k", i + 1, i + 1)); } else { a.assign(d, r.uni(0, 1)); k.assign(d, r.uni(0.1, 2)); l.set("Thermal Expansion Coefficient", a[0]); l.set("Thermal Conductivity Coefficient", k[0]); req.push_back("Thermal Expansion Coefficient"); req.push_back("Thermal Conductivity Coefficient"); }
    double T0 = r.uni(-5, 5), v[4] = {1, 1, 1, 1}; l.set("Reference Temperature", T0); const char* on[4] = {"Mass Density", "Specific Heat", "Temperature Scaling", "Pressure Scaling"}; for (int i = 0; i < 4; ++i) if (r.coin()) { v[i] = r.uni(0.5, 3); l.set(on[i], v[i]); }
    c.begin(str("thermoelastic ", d, "D cubic ", cub, " E ", E, " a ", a[0])); Plato::LinearThermoelasticModelFactory<d> f(top); auto m = f.create("m"); M K(d, d); for (int i = 0; i < d; ++i) K(i, i) = k[i];
    near_(c, mat(m->getStiffnessMatrix(), n, n), iso(d, E, nu).a, "thermo-stiffness", 1e-12); near_(c, vecd(m->getThermalExpansion(), d), a, "thermo-expansion", 0); near_(c, mat(m->getThermalConductivity(), d, d), K.a, "thermo-conductivity", 0);
    c.close(m->getReferenceTemperature(), T0, "thermo-reference", 0, 0); c.close(m->getMassDensity(), v[0], "thermo-density", 0, 0); c.close(m->getSpecificHeat(), v[1], "thermo-heat", 0, 0); c.close(m->getTemperatureScaling(), v[2], "thermo-tscale", 0, 0); c.close(m->getPressureScaling(), v[3], "thermo-pscale", 0, 0);
    PL b(top); std::string q = r.pick(req); b.sublist("Material Models").sublist("m").sublist(cub ? "Cubic Linear Thermoelastic" : "Isotropic Linear Thermoelastic").remove(q); Plato::LinearThermoelasticModelFactory<d> g(b); c.rejects([&] { g.create("m"); }, "thermo-refuses-missing", q); c.rejects([&] { f.create("other"); }, "thermo-refuses-unknown"); } }
VH_GROUP(linear_thermoelastic) { thermo<1>(c); thermo<2>(c); thermo<3>(c); }

// the whole range of stable orthotropic constants, the plain constructors and models that are set again
template <int d> static void ortho(Ctx& c) { auto& r = c.rng; const int n = nvoigt(d); const char* ax = "XYZ"; static const int pr[3][2] = {{0, 1}, {0, 2}, {1, 2}}; Plato::OrthotropicLinearElasticMaterial<d> kept; for (int it = 0; it < c.n(300, 8000); ++it) { D E(3), a(3), G(3); for (int i = 0; i < 3; ++i) { E[i] = r.coin(0.3) ? r.uni(1, 2) : std::exp(r.uni(-2.5, 4)); a[i] = r.uni(-1.3, 1.3); if (r.coin()) a[i] *= 0.5; G[i] = std::exp(r.uni(-2, 3)); } PL top; PL& p = top.sublist("Material Models").sublist("m").sublist("Orthotropic Linear Elastic"); M S(n, n);
    for (int i = 0; i < d; ++i) { S(i, i) = 1 / E[i]; p.set(str("Youngs Modulus ", ax[i]), E[i]); } bool ok = true; double edge = 1; for (int q = 0; q < 3; ++q) { int i = pr[q][0], j = pr[q][1]; if (j >= d) continue; double nu = a[q] * std::sqrt(E[i] / E[j]); p.set(str("Poissons Ratio ", ax[i], ax[j]), nu); S(i, j) = S(j, i) = -nu / E[i]; p.set(str("Shear Modulus ", ax[i], ax[j]), G[q]); for (int k = d; k < n; ++k) { auto v = vij(d, k); if (std::min(v.first, v.second) == i && std::max(v.first, v.second) == j) S(k, k) = 1 / G[q]; } ok = ok && std::fabs(a[q]) < 1; edge = std::min(edge, std::fabs(1 - std::fabs(a[q]))); }
    if (d == 3) { double det = 1 - a[0] * a[0] - a[1] * a[1] - a[2] * a[2] - 2 * a[0] * a[1] * a[2]; ok = ok && det > 0; edge = std::min(edge, std::fabs(det)); } if (edge < 1e-3) continue; c.begin(str("orthotropic ", d, "D ", ok ? "stable" : "unstable", " a ", a[0], ",", a[1], ",", a[2], " E ", E[0], ",", E[1], ",", E[2])); int how = r.in(0, 2); D got; auto f = [&] { if (how == 0) { Plato::ElasticModelFactory<d> F(top); auto m = F.create("m"); got = mat(m->getStiffnessMatrix(), n, n); } else if (how == 1) got = mat(Plato::OrthotropicLinearElasticMaterial<d>(p).getStiffnessMatrix(), n, n); else { kept.setMaterialModel(p); got = mat(kept.getStiffnessMatrix(), n, n); } };
    if (!ok) { c.rejects(f, "orthotropic-refuses-unstable-range"); continue; } if (!c.accepts(f, "orthotropic-accepts-stable")) continue; M C = inv(S); double sc = 0; for (double x : C.a) sc = std::max(sc, std::fabs(x)); near_(c, got, C.a, "orthotropic-stiffness", 1e-10 / std::min(1.0, edge), sc); }
  for (int it = 0; it < c.n(40, 800); ++it) { double E = std::exp(r.uni(-3, 5)), nu = r.uni(-0.9, 0.49); c.begin(str("isotropic ", d, "D ", E, " ", nu)); near_(c, mat(Plato::IsotropicLinearElasticMaterial<d>(E, nu).getStiffnessMatrix(), n, n), iso(d, E, nu).a, "isotropic-constructor", 1e-12); PL top; PL& p = top.sublist("Material Models").sublist("m").sublist("Isotropic Linear Elastic"); p.set("Youngs Modulus", E); p.set("Poissons Ratio", nu); Plato::ElasticModelFactory<d> F(top); near_(c, mat(F.create("m")->getStiffnessMatrix(), n, n), iso(d, E, nu).a, "isotropic-factory", 1e-12); c.rejects([&] { F.create("other"); }, "elastic-refuses-unknown"); } }
VH_GROUP(orthotropic) { ortho<2>(c); ortho<3>(c); }
VH_GROUP(isotropic_1) { auto& r = c.rng; for (int it = 0; it < c.n(40, 800); ++it) { double E = std::exp(r.uni(-3, 5)), nu = r.uni(-0.9, 0.49); c.begin(str("isotropic 1D ", E, " ", nu)); near_(c, mat(Plato::IsotropicLinearElasticMaterial<1>(E, nu).getStiffnessMatrix(), 1, 1), iso(1, E, nu).a, "isotropic-constructor", 1e-12); } }
